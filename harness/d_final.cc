// C27: archives are finalized all-or-nothing and leave no temporary files.
#include "arch.inc"
const char *PROPERTY = "C27";
const char *RULE = "one history of an export, an extension or an import under one fault: a call into the system made to fail (once or from then on) or cut short, the process ended before it, or an obstacle at the destination; distinct by history, state and fault; non-trivial: the fault was delivered or the obstacle was there";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"histories", 114}, {"faults", 1020}, {"short_transfers", 54}, {"lasting_faults", 240}, {"kills", 570}, {"obstacles", 13}, {"failed_as_told", 960}, {"absorbed", 180},
    {"killed_old", 420}, {"killed_new", 7}, {"kept_handle", 36}, {"retried", 18}, {"old_archive_kept", 600}, {"discards", 180}, {"imports", 360}, {"extensions", 420}, {"complete", 180}};
long driver_directed () { return 0; }
void driver_setup () { setup_box (); }

enum Hist { NEW_FRESH, NEW_OVER, EXTEND_SAME, EXTEND_SPELLED, EXTEND_LINK, EXTEND_MOVE, EXTEND_MOVE_OVER, DISCARD_NEW, DISCARD_EXTENDED, IMPORT_DISCARD, IMPORT_DO, HISTS };
static const char *HNAME[] = {"a new archive", "a new archive over another", "an archive extended in place", "an archive extended in place by another spelling", "an archive extended through a link", "an archive extended and moved", "an archive extended and moved over another", "an export discarded", "an extension discarded", "an import discarded", "an import"};
enum Obst { NONE, IS_DIR, DIR_MISSING, DIR_READONLY, FILE_READONLY, DIR_A_FILE, SLASH, LINK_LOOP, NAME_TOO_LONG, EMPTY_PATH, OBSTS };
static const char *ONAME[] = {"nothing", "a directory", "a missing directory", "a directory that cannot be written", "a file that cannot be written", "a file as directory", "a path ending in a slash", "a loop of links", "a name too long", "an empty path"};
struct Entry { std::string group, id, text, backend, version; };
struct World
{
    Case& c; Rng& r; GenOpt o; std::string top, out; Kind kind; Site s;
    std::vector<Entry> entries; std::vector<size_t> prior, late;         // in the archive that exists, to be appended
    bool by_group = false, report = false; Hist h = NEW_FRESH; Obst ob = NONE;
    std::string open_path, dest, final_path, old_path;                   // opened, asked for, where it goes, what gives way
    explicit World (Case& x) : c (x), r (x.r) {}
};
struct Ran
{
    enum disir_status begin, fin; bool handle = false, started = false, finished = false; std::vector<std::pair<size_t, enum disir_status>> appends;
    int listed = -1; struct disir_archive *ar = nullptr; struct disir_import *im = nullptr; std::string text;
};
static void perform (World& w, Ran& x)
{
    auto *in = w.s.in.p;
    if (w.h == IMPORT_DISCARD || w.h == IMPORT_DO)
    {
        int n = -1;
        x.begin = disir_archive_import (in, w.open_path.c_str (), &x.im, &n);
        x.started = x.im != nullptr;
        if (!x.im) return;
        x.listed = n;
        if (w.h == IMPORT_DO) for (int i = 0; i < n; i++) disir_import_resolve_entry (x.im, i, DISIR_IMPORT_FORCE);
        struct import_report *rep = nullptr;
        x.fin = disir_import_finalize (in, w.h == IMPORT_DO ? DISIR_IMPORT_DO : DISIR_IMPORT_DISCARD, &x.im, w.report ? &rep : nullptr);
        x.finished = true;
        if (rep) disir_import_report_destroy (&rep);
        x.im = nullptr;
        return;
    }
    x.begin = disir_archive_export_begin (in, w.open_path.empty () ? nullptr : w.open_path.c_str (), &x.ar);
    x.started = x.ar != nullptr;
    if (!x.ar) return;
    if (w.by_group)
    {
        std::set<std::string> done;
        for (auto i : w.late)
        {
            if (!done.insert (w.entries[i].group).second) continue;
            auto st = disir_archive_append_group (in, x.ar, w.entries[i].group.c_str ());
            for (auto k : w.late) if (w.entries[k].group == w.entries[i].group) x.appends.push_back ({k, st});
        }
    }
    else
        for (auto i : w.late) x.appends.push_back ({i, disir_archive_append_entry (in, x.ar, w.entries[i].group.c_str (), w.entries[i].id.c_str ())});
    bool discard = w.h == DISCARD_NEW || w.h == DISCARD_EXTENDED;
    x.fin = disir_archive_finalize (in, discard ? nullptr : w.dest.c_str (), &x.ar);
    x.finished = true;
    x.handle = x.ar != nullptr;
}
// what an archive at path must hold: what was there and what was appended, with exact contents; 'maybe': what it may hold besides
static std::string incomplete (World& w, const std::string& path, const std::set<size_t>& must, const std::set<size_t>& maybe)
{
    std::string bytes;
    if (!slurp (path, bytes)) return "does not exist";
    std::vector<Member> ms;
    if (!unpack (bytes, ms)) return strf ("is no complete archive (%zu bytes)", bytes.size ());
    std::map<std::string, std::string> has;
    for (auto& m : ms) has[m.name] = m.data;
    if (!has.count ("metadata.toml")) return "has no index";
    struct disir_import *im = nullptr;
    int n = -1;
    auto st = boxed ([&] { return disir_archive_import (w.s.in.p, path.c_str (), &im, &n); });
    if (st != DISIR_STATUS_OK || !im) return strf ("cannot be imported (%s)", sname (st));
    std::string bad;
    std::set<size_t> seen;
    for (int i = 0; i < n && bad.empty (); i++)
    {
        const char *e = "", *g = "", *v = "";
        disir_import_entry_status (im, i, &e, &g, &v, nullptr);
        size_t k = 0;
        while (k < w.entries.size () && (w.entries[k].id != e || w.entries[k].group != g)) k++;
        if (k == w.entries.size () || (!must.count (k) && !maybe.count (k))) bad = strf ("lists %s of %s", e, g);
        else if (w.entries[k].version != v) bad = strf ("lists %s of %s at version %s instead of %s", e, g, v, w.entries[k].version.c_str ());
        else if (has[w.entries[k].backend + "/" + g + "/" + e] != w.entries[k].text) bad = strf ("holds other content for %s of %s than the installation", e, g);
        seen.insert (k);
    }
    for (auto k : must) if (bad.empty () && !seen.count (k)) bad = strf ("lacks %s of %s", w.entries[k].id.c_str (), w.entries[k].group.c_str ());
    boxed ([&] { return disir_import_finalize (w.s.in.p, DISIR_IMPORT_DISCARD, &im, nullptr); });
    return bad;
}
static void restore (const std::string& dir, const Snap& want)
{
    Snap now;
    snapshot (dir, "", now);
    if (now == want) return;
    for (auto it = now.rbegin (); it != now.rend (); ++it)
        if (!want.count (it->first) || want.at (it->first) != it->second)
        {
            auto p = dir + "/" + it->first;
            if (p.back () == '/') p.pop_back ();
            wipe (p);
        }
    for (auto& e : want)
    {
        auto it = now.find (e.first);
        if (it != now.end () && it->second == e.second) continue;
        if (e.first.back () == '/') mkdirs (dir + "/" + e.first.substr (0, e.first.size () - 1)); else spill (dir + "/" + e.first, e.second);
    }
}
struct Base { Snap out, store, after; };          // 'after': the store after an import that succeeded
static bool temp_name (const std::string& p) { auto k = p.rfind ('/'); return p.compare (k == std::string::npos ? 0 : k + 1, 5, ".tmp-") == 0; }
static std::string rel (World& w, const std::string& p) { return p.size () > w.out.size () ? p.substr (w.out.size () + 1) : ""; }
static void judge (World& w, const Base& base, const Ran& x, const std::string& how, bool killed, bool lasting = false)
{
    Case& c = w.c;
    std::string what = strf ("%s, %s", HNAME[w.h], how.c_str ());
    Snap out, store;
    snapshot (w.out, "", out);
    snapshot (w.s.dir, "", store);
    std::set<size_t> must, maybe;
    bool extends = !w.open_path.empty ();
    if (extends) must.insert (w.prior.begin (), w.prior.end ());
    for (auto& a : x.appends) (a.second == DISIR_STATUS_OK ? must : maybe).insert (a.first);
    if (killed) { maybe.insert (w.late.begin (), w.late.end ()); }
    bool exports = w.h < DISCARD_NEW;
    bool ok = !killed && x.started && x.finished && x.fin == DISIR_STATUS_OK && exports;
    if (!killed && !x.started && x.begin == DISIR_STATUS_OK) c.violation ("begin:handle", "%s: opening returned OK without a handle", what.c_str ());
    if (!killed && x.started && x.begin != DISIR_STATUS_OK) c.violation ("begin:handle", "%s: opening returned %s with a handle", what.c_str (), sname (x.begin));
    if (!killed && x.finished && exports && x.fin == DISIR_STATUS_OK && x.handle) c.violation ("final:handle", "%s: the handle is still there after success", what.c_str ());
    auto fin_rel = rel (w, w.final_path), old_rel = rel (w, w.old_path);
    if (ok)
    {
        auto bad = incomplete (w, w.final_path, must, maybe);
        if (!bad.empty ()) c.violation ("success:incomplete", "%s: finalizing returned OK, the archive at %s %s", what.c_str (), w.final_path.c_str (), bad.c_str ());
        else c.count ("complete");
        for (auto& e : base.out) if (e.first != fin_rel && e.first != old_rel && (!out.count (e.first) || out[e.first] != e.second)) c.violation ("success:other", "%s: %s was harmed", what.c_str (), quote (e.first).c_str ());
        for (auto& e : out) if (e.first != fin_rel && !base.out.count (e.first)) c.violation ("success:litter", "%s: %s appeared", what.c_str (), quote (e.first).c_str ());
    }
    else
    {
        // everything that was there, or the whole of the new archive in its place
        bool replaced = false, gone = false;
        for (auto& e : base.out)
        {
            auto it = out.find (e.first);
            if (it != out.end () && it->second == e.second) continue;
            bool may = killed || w.h == EXTEND_MOVE || w.h == EXTEND_MOVE_OVER;     // moved, and then the old one could not be removed
            if (e.first == fin_rel && may && it != out.end ()) { replaced = true; continue; }
            if (killed && e.first == old_rel && it == out.end ()) { gone = true; continue; }
            c.violation ("failure:harmed", "%s (%s): %s, which existed before, %s", what.c_str (), killed ? "killed" : sname (x.finished ? x.fin : x.begin), quote (e.first).c_str (), it == out.end () ? "is gone" : strf ("has %zu bytes instead of %zu", it->second.size (), e.second.size ()).c_str ());
            return;
        }
        for (auto& e : out)
        {
            if (base.out.count (e.first)) continue;
            if ((killed || lasting) && temp_name (e.first)) continue;        // (nothing could be removed)
            if (e.first == fin_rel && (killed || w.h == EXTEND_MOVE || w.h == EXTEND_MOVE_OVER)) { replaced = true; continue; }
            c.violation ("failure:litter", "%s (%s): %s appeared", what.c_str (), killed ? "killed" : sname (x.finished ? x.fin : x.begin), quote (e.first).c_str ());
            return;
        }
        if (gone && out.count (fin_rel)) replaced = true;                    // (it may happen to equal what it replaced)
        if (gone && !replaced) c.violation ("killed:lost", "%s: the archive is gone", what.c_str ());
        if (replaced && exports)
        {
            auto bad = incomplete (w, w.final_path, must, maybe);
            if (!bad.empty ()) c.violation ("failure:half", "%s: the archive at %s %s", what.c_str (), w.final_path.c_str (), bad.c_str ());
        }
        if (killed) c.count (replaced ? "killed_new" : "killed_old");
        if (!w.prior.empty () && extends && !replaced) c.count ("old_archive_kept");
    }
    if (w.h != IMPORT_DO) { if (store != base.store) c.violation ("store", "%s: the installation changed", what.c_str ()); }
    else
        for (auto& e : store)
        {
            auto a = base.store.find (e.first), b = base.after.find (e.first);
            if ((a != base.store.end () && a->second == e.second) || (b != base.after.end () && b->second == e.second) || ((killed || lasting) && temp_name (e.first))) continue;
            c.violation ("store:half", "%s: %s is neither as before nor as imported", what.c_str (), quote (e.first).c_str ());
            break;
        }
}
// releases what is left, trying the finalization once more if that is possible
static void settle (World& w, Ran& x, const std::string& how)
{
    Case& c = w.c;
    if (!x.ar) return;
    c.count ("kept_handle");
    B.faults = false;
    if (x.finished && x.fin != DISIR_STATUS_PERMISSION_ERROR && x.fin != DISIR_STATUS_NOT_EXIST && x.fin != DISIR_STATUS_INVALID_ARGUMENT) c.violation ("handle:kept", "%s, %s: finalizing returned %s and kept the handle", HNAME[w.h], how.c_str (), sname (x.fin));
    std::set<size_t> must, maybe;
    if (!w.open_path.empty ()) must.insert (w.prior.begin (), w.prior.end ());
    for (auto& a : x.appends) (a.second == DISIR_STATUS_OK ? must : maybe).insert (a.first);
    if (must.empty () || w.r.chance (1, 5)) { boxed ([&] { return disir_archive_finalize (w.s.in.p, nullptr, &x.ar); }); if (x.ar) { c.violation ("handle:discard", "%s, %s: the archive could not be discarded", HNAME[w.h], how.c_str ()); x.ar = nullptr; } return; }
    std::string to = w.top + "/retry.disir";
    wipe (to);
    auto st = boxed ([&] { return disir_archive_finalize (w.s.in.p, to.c_str (), &x.ar); });
    if (st != DISIR_STATUS_OK || x.ar) { c.violation ("retry", "%s, %s: finalizing returned %s; once more to a good place it returned %s", HNAME[w.h], how.c_str (), sname (x.fin), sname (st)); if (x.ar) { boxed ([&] { return disir_archive_finalize (w.s.in.p, nullptr, &x.ar); }); } return; }
    auto bad = incomplete (w, to, must, maybe);
    if (!bad.empty ()) c.violation ("retry:incomplete", "%s, %s: the archive of the second attempt %s", HNAME[w.h], how.c_str (), bad.c_str ());
    c.count ("retried");
    wipe (to);
}
static void prepare (World& w, Base& base)
{
    Rng& r = w.r;
    auto prior = w.out + "/prior.disir";
    w.open_path = w.old_path = "";
    w.dest = w.final_path = "";
    bool no_ext = r.chance (1, 3);
    switch (w.h)
    {
    case NEW_FRESH: w.final_path = w.out + "/fresh.disir"; break;
    case NEW_OVER: w.final_path = prior; break;
    case EXTEND_SAME: w.open_path = w.final_path = prior; break;
    case EXTEND_SPELLED: w.open_path = prior; w.dest = r.pick ({w.out + "/../" + w.out.substr (w.out.rfind ('/') + 1) + "/prior", w.out + "//prior.disir", w.out + "/./prior"}); w.final_path = prior; break;
    case EXTEND_LINK: if (r.chance (1, 2)) { w.open_path = w.out + "/link.disir"; w.dest = r.chance (1, 2) ? prior : w.open_path; } else { w.open_path = prior; w.dest = w.out + "/link.disir"; } w.final_path = prior; break;
    case EXTEND_MOVE: w.open_path = w.old_path = prior; w.final_path = w.out + "/moved.disir"; break;
    case EXTEND_MOVE_OVER: w.open_path = w.old_path = prior; w.final_path = w.out + "/other.disir"; break;
    case DISCARD_EXTENDED: case IMPORT_DISCARD: case IMPORT_DO: w.open_path = prior; break;
    default: break;
    }
    if (w.dest.empty ()) w.dest = no_ext && !w.final_path.empty () ? w.final_path.substr (0, w.final_path.size () - 6) : w.final_path;
    snapshot (w.out, "", base.out);
}
static bool obstruct (World& w, std::string& undo_path, int& undo_mode)
{
    undo_path = "";
    auto base = w.out + "/sub";
    mkdirs (base);
    std::string p;
    switch (w.ob)
    {
    case IS_DIR: p = base + "/d"; mkdirs (p + ".disir"); break;
    case DIR_MISSING: p = base + "/none/x"; break;
    case DIR_READONLY: p = base + "/x"; undo_path = base; undo_mode = 0755; break;
    case FILE_READONLY: p = base + "/ro"; spill (p + ".disir", "precious"); undo_path = p + ".disir"; undo_mode = 0644; break;
    case DIR_A_FILE: spill (base + "/f", "precious"); p = base + "/f/x"; break;
    case SLASH: p = base + "/"; break;
    case LINK_LOOP: p = base + "/loop"; if (symlink ("loop.disir", (p + ".disir").c_str ())) return false; break;
    case NAME_TOO_LONG: p = base + "/" + std::string (w.r.pick ({250, 256, 4000, 5000, 70000}), 'x'); break;
    case EMPTY_PATH: p = ""; break;
    default: return false;
    }
    w.dest = p;
    w.final_path = p + ".disir";
    w.old_path = w.open_path;
    return true;
}
static void obstacle (World& w)
{
    Case& c = w.c;
    Base base;
    std::string undo;
    int mode = 0;
    if (!obstruct (w, undo, mode)) return;
    snapshot (w.out, "", base.out);
    snapshot (w.s.dir, "", base.store);
    if (!undo.empty ()) chmod (undo.c_str (), mode & 0555);
    Ran x;
    c.count ("obstacles");
    auto how = strf ("in the way: %s", ONAME[w.ob]);
    c.log ("%s, %s", HNAME[w.h], how.c_str ());
    int fds = open_fds ();
    boxed ([&] { perform (w, x); return 0; });
    if (!undo.empty ()) chmod (undo.c_str (), mode);
    for (auto& a : x.appends) if (a.second != DISIR_STATUS_OK) c.violation ("append", "%s: appending %s of %s returned %s", how.c_str (), w.entries[a.first].id.c_str (), w.entries[a.first].group.c_str (), sname (a.second));
    if (x.finished && x.fin == DISIR_STATUS_OK && w.ob != LINK_LOOP && !(w.ob == NAME_TOO_LONG && w.dest.size () - w.dest.rfind ('/') < 250)) c.violation ("obstacle:ok", "%s, %s: finalizing returned OK", HNAME[w.h], how.c_str ());
    if ((w.ob == DIR_MISSING || w.ob == DIR_READONLY) && x.finished)
    {
        auto want = w.ob == DIR_MISSING ? DISIR_STATUS_NOT_EXIST : DISIR_STATUS_PERMISSION_ERROR;
        if (x.fin != want || !x.ar) c.violation ("obstacle:status", "%s, %s: finalizing returned %s and %s the handle", HNAME[w.h], how.c_str (), sname (x.fin), x.ar ? "kept" : "took");
        if (w.s.in.error ().empty ()) c.violation ("obstacle:text", "%s, %s: no message", HNAME[w.h], how.c_str ());
    }
    if (w.ob == LINK_LOOP && x.fin == DISIR_STATUS_OK) { }
    else judge (w, base, x, how, false);
    settle (w, x, how);
    no_leftovers (c, (std::string (HNAME[w.h]) + ", " + how).c_str ());
    if (open_fds () != fds) c.violation ("descriptors", "%s, %s: %d descriptors left open", HNAME[w.h], how.c_str (), open_fds () - fds);
    wipe (w.out + "/sub");
}
void driver_case (Case& c)
{
    Unprivileged user;
    Rng& r = c.r;
    World w (c);
    w.o.depth = 1; w.o.width = 3;
    w.top = scratch_dir () + "/f";
    wipe (w.top);
    w.out = w.top + "/out";
    mkdirs (w.out);
    w.s.dir = w.top + "/s";
    box_reset ();
    w.kind.m = gen_mold (r, w.o);
    w.kind.mold = build_mold (c, w.kind.m);
    w.s.groups.reserve (4);
    bool ok = w.kind.mold && w.s.in.make (c);
    static const char *back[] = {"JSON", "TOML"};
    if (ok) { w.s.add (c, "grp1", JSON_PLUGIN); if (r.chance (1, 2)) w.s.add (c, "g.2", r.chance (1, 2) ? JSON_PLUGIN : TOML_PLUGIN); ok = !c.failed; }
    for (auto& g : w.s.groups)
        for (int i = 0, n = (int) r.range (1, 3); ok && i < n; i++)
        {
            auto id = i == 0 ? "e" : strf ("dir/n%d", i);
            auto x = config_for (r, w.kind.m, w.o);
            ok = write_mold (c, w.s, g, id, w.kind.mold) && install (c, w.s, g, id, w.kind.mold, x);
            auto *cfg = ok ? build_config (c, w.kind.mold, x) : nullptr;
            Entry e {g.name, id, "", back[g.kind == JSON_PLUGIN ? 0 : 1], x.ver.str ()};
            if (cfg && text_of_config (c, g.kind, w.s.in.p, cfg, e.text)) w.entries.push_back (e);
            if (cfg) disir_config_finished (&cfg);
        }
    // what is there before
    auto make = [&] (const std::string& path, const std::vector<size_t>& which)
    {
        struct disir_archive *ar = nullptr;
        auto st = boxed ([&] { return disir_archive_export_begin (w.s.in.p, nullptr, &ar); });
        for (auto i : which) if (st == DISIR_STATUS_OK) st = boxed ([&] { return disir_archive_append_entry (w.s.in.p, ar, w.entries[i].group.c_str (), w.entries[i].id.c_str ()); });
        if (st == DISIR_STATUS_OK) st = boxed ([&] { return disir_archive_finalize (w.s.in.p, path.c_str (), &ar); });
        if (st != DISIR_STATUS_OK) { c.violation ("setup", "making %s returned %s", path.c_str (), sname (st)); if (ar) disir_archive_finalize (w.s.in.p, nullptr, &ar); return false; }
        return true;
    };
    for (int round = 0; round < 2 && ok && !c.failed; round++)
    {
        wipe (w.out);
        mkdirs (w.out);
        w.h = (Hist) r.below (HISTS);
        w.ob = NONE;
        w.by_group = r.chance (1, 3);
        w.report = r.chance (1, 2);
        w.prior.clear (); w.late.clear ();
        std::set<std::string> held;
        for (size_t i = 0; i < w.entries.size (); i++)
            if (w.by_group) { bool first = r.chance (1, 2) || (i && held.count (w.entries[i].group)); if (i && w.entries[i].group == w.entries[i - 1].group) first = held.count (w.entries[i].group); if (first) { held.insert (w.entries[i].group); w.prior.push_back (i); } else w.late.push_back (i); }
            else (r.chance (1, 2) ? w.prior : w.late).push_back (i);
        if (w.prior.empty ()) { if (w.by_group) { w.by_group = false; } w.prior.push_back (w.late[0]); w.late.erase (w.late.begin ()); }
        if (w.h == NEW_FRESH || w.h == NEW_OVER || w.h == DISCARD_NEW) { w.late.clear (); for (size_t i = 0; i < w.entries.size (); i++) w.late.push_back (i); }
        if (!make (w.out + "/prior.disir", w.prior)) break;
        if (r.chance (2, 3) || w.h == EXTEND_MOVE_OVER) { std::vector<size_t> one {0}; if (!make (w.out + "/other.disir", one)) break; }
        spill (w.out + "/bystander", "precious");
        spill (w.out + "/prior.disir.backup", "somebody's");
        if (w.h == EXTEND_LINK && symlink ("prior.disir", (w.out + "/link.disir").c_str ())) break;
        Base base;
        prepare (w, base);
        snapshot (w.s.dir, "", base.store);
        no_leftovers (c, "the preparation");
        c.count ("histories");
        if (r.chance (1, 3) && w.h < DISCARD_NEW && w.h != EXTEND_LINK) { w.ob = (Obst) r.range (1, OBSTS - 1); obstacle (w); continue; }
        // undisturbed: it works, and tells how many calls there are
        long calls = 0;
        {
            Ran x;
            B.faults = true; B.at = 0;
            int fds = open_fds ();
            boxed ([&] { perform (w, x); return 0; });
            calls = B.n;
            B.faults = false;
            c.log ("%s, undisturbed: %ld calls", HNAME[w.h], calls);
            if (x.begin != DISIR_STATUS_OK || !x.finished || x.fin != DISIR_STATUS_OK) c.violation ("undisturbed", "%s: opening returned %s, finishing %s: %s", HNAME[w.h], sname (x.begin), x.finished ? sname (x.fin) : "-", w.s.in.error ().c_str ());
            for (auto& a : x.appends) if (a.second != DISIR_STATUS_OK) c.violation ("undisturbed:append", "%s: appending %s of %s returned %s: %s", HNAME[w.h], w.entries[a.first].id.c_str (), w.entries[a.first].group.c_str (), sname (a.second), w.s.in.error ().c_str ());
            snapshot (w.s.dir, "", base.after);
            if (!c.failed) judge (w, base, x, "undisturbed", false);
            settle (w, x, "undisturbed");
            no_leftovers (c, HNAME[w.h]);
            if (open_fds () != fds) c.violation ("descriptors", "%s: %d descriptors left open", HNAME[w.h], open_fds () - fds);
            auto keep_link = w.h == EXTEND_LINK;
            restore (w.out, base.out); restore (w.s.dir, base.store);
            if (keep_link) { wipe (w.out + "/link.disir"); if (symlink ("prior.disir", (w.out + "/link.disir").c_str ())) break; }
        }
        // every call once, in a random manner
        std::vector<long> at;
        for (long k = 1; k <= calls; k++) at.push_back (k);
        for (size_t i = at.size (); i > 1; i--) std::swap (at[i - 1], at[r.below (i)]);
        if (at.size () > 24) at.resize (24);
        for (long k : at)
        {
            if (c.failed) break;
            Ran x;
            int manner = (int) r.below (8);
            B.at = k; B.err = r.pick ({EIO, ENOSPC, EACCES, EDQUOT, EMFILE, EROFS, ENOMEM}); B.cut = manner == 0; B.kill = manner >= 6; B.sticky = manner == 1; B.faults = true; B.hit = false; B.n = 0; B.site = "";
            if (B.kill)
            {
                int p[2];
                if (pipe (p)) abort ();
                pid_t pid = fork ();
                if (pid == 0) { ::close (p[0]); B.tell = p[1]; boxed ([&] { perform (w, x); return 0; }); _exit (0); }
                B.faults = false;
                ::close (p[1]);
                std::string told;
                char buf[4096];
                ssize_t n;
                while ((n = ::read (p[0], buf, sizeof buf)) > 0) told.append (buf, n);
                ::close (p[0]);
                int status = 0;
                waitpid (pid, &status, 0);
                bool died = WIFEXITED (status) && WEXITSTATUS (status) == 7;
                if (!died && !(WIFEXITED (status) && WEXITSTATUS (status) == 0)) c.violation ("child", "%s, to be killed at call %ld: the process ended with status %x", HNAME[w.h], k, status);
                c.log ("%s, killed at call %ld", HNAME[w.h], k);
                if (died) { c.count ("kills"); judge (w, base, x, strf ("killed at call %ld", k), true); }
                for (size_t a = 0, e; (e = told.find ('\n', a)) != std::string::npos; a = e + 1) remove_all (told.substr (a, e - a));
                no_leftovers (c, "the judgement");
            }
            else
            {
                int fds = open_fds ();
                disir_error_clear (w.s.in.p);
                boxed ([&] { perform (w, x); return 0; });
                bool hit = B.hit;
                std::string site = B.site;
                std::string how = strf ("%s at call %ld (%s)", B.cut ? "cut short" : B.sticky ? strf ("failing from then on with %s", strerror (B.err)).c_str () : strerror (B.err), k, site.c_str ());
                bool lasting = B.sticky, cut = B.cut;
                B.faults = false;
                if (hit)
                {
                    c.count (cut ? "short_transfers" : lasting ? "lasting_faults" : "faults");
                    c.nontrivial (strf ("%d %ld %s %d", w.h, k, how.c_str (), (int) w.entries.size ()));
                    c.log ("%s, %s", HNAME[w.h], how.c_str ());
                    bool fine = x.started && x.finished && x.fin == DISIR_STATUS_OK;
                    for (auto& a : x.appends) fine = fine && a.second == DISIR_STATUS_OK;
                    c.count (fine ? "absorbed" : "failed_as_told");
                    c.count (w.h >= IMPORT_DISCARD ? "imports" : w.h >= DISCARD_NEW ? "discards" : !w.open_path.empty () ? "extensions" : "exports");
                    judge (w, base, x, how, false, lasting);
                    if (cut && !fine && !c.failed) c.violation ("short", "%s, %s: a transfer cut short was not taken up again (%s)", HNAME[w.h], how.c_str (), sname (x.finished ? x.fin : x.begin));
                    settle (w, x, how);
                    bool may = lasting || site == "unlink" || site == "remove" || site == "rmdir" || site == "unlinkat";
                    no_leftovers (c, (std::string (HNAME[w.h]) + ", " + how).c_str (), may);
                    // (an fstat that fails makes libarchive forget its descriptor)
                    if (open_fds () != fds && site != "fstat") c.violation ("descriptors", "%s, %s: %d descriptors left open", HNAME[w.h], how.c_str (), open_fds () - fds);
                }
                else { settle (w, x, how); no_leftovers (c, HNAME[w.h]); }
            }
            B.kill = B.cut = B.sticky = false; B.at = 0;
            if (c.failed) break;
            restore (w.out, base.out); restore (w.s.dir, base.store);
            if (w.h == EXTEND_LINK) { wipe (w.out + "/link.disir"); if (symlink ("prior.disir", (w.out + "/link.disir").c_str ())) break; }
        }
        if (c.no % 17 == 1) c.sample (strf ("%s: %ld calls", HNAME[w.h], calls));
    }
    no_leftovers (c, "the case");
    w.s.in.done (c);
    if (w.kind.mold) disir_mold_finished (&w.kind.mold);
    std::vector<Entry> ().swap (w.entries);
    wipe (w.top);
}
