// C25: import statuses are truthful, only chosen resolutions take effect.
#include "arch.inc"
#include "mature.inc"
const char *PROPERTY = "C25";
const char *RULE = "one archive entry offered to an installation, resolved in a sequence of choices and finalized; distinct by the archived text, what is installed, the mold installed and the choices; non-trivial: the entry's status was compared with a classification made from the texts alone";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"imports", 360}, {"entries", 1636}, {"status_ok", 166}, {"status_conflict", 352}, {"status_identical", 307}, {"status_semver_installed", 65}, {"status_semver_mold", 189}, {"status_no_can_do", 379}, {"status_invalid", 156}, {"group_missing", 90}, {"backend_differs", 93}, {"mold_missing", 83}, {"mold_older", 78}, {"installed_unreadable", 54}, {"installed_newer", 91}, {"installed_older", 69}, {"resolved_do", 152}, {"resolved_force", 234}, {"resolved_update", 187}, {"resolved_update_discard", 64}, {"update_violates", 27}, {"values_discarded", 6}, {"refused", 2497}, {"reconsidered", 332}, {"after_update_other", 177}, {"finalized", 283}, {"discarded_import", 63}, {"reports", 184}, {"failed_writes", 15}, {"written", 225}, {"untouched", 1393}, {"invalid_arguments", 751}};
long driver_directed () { return 0; }
void driver_setup () { setup_box (); }

// ---- the world ---------------------------------------------------------------------------------------------
enum Rel { SAME, OLDER, RENEWED, OTHER, MOLD_MISSING, MOLD_GARBAGE, GROUP_MISSING, BACKEND, RELS };
enum Status { S_OK, S_IDENTICAL, S_CONFLICT, S_SEMVER_HERE, S_SEMVER_MOLD, S_NO, S_INVALID };
static const char *RNAME[] = {"the same mold", "an older mold", "a newer mold", "another mold", "no mold", "an unreadable mold", "no such group", "another backend"};
static const char *SNAME[] = {"importable", "identical", "conflicting", "of another version than installed", "of another version than the mold", "unsupported", "invalid"};
struct Ent
{
    std::string group, id, text; PluginKind kind; Rel rel = SAME; MMold am; Ver aver; std::string member;
    struct disir_mold *bmold = nullptr; Ver bver;
    std::string here, file;                    // installed text, where
    bool installed = false, readable = false;
    struct disir_config *cfg = nullptr;        // as read with the installation's mold
    MConfig x, was; enum disir_status read = DISIR_STATUS_OK;
    Status want = S_NO;
    // choices
    bool chosen = false; MConfig content; bool blocked = false; std::string history;
};
static enum disir_status outward (Status s)
{
    switch (s)
    {
    case S_OK: return DISIR_STATUS_OK;
    case S_IDENTICAL: case S_CONFLICT: return DISIR_STATUS_CONFLICT;
    case S_SEMVER_HERE: case S_SEMVER_MOLD: return DISIR_STATUS_CONFLICTING_SEMVER;
    case S_NO: return DISIR_STATUS_NO_CAN_DO;
    case S_INVALID: return DISIR_STATUS_CONFIG_INVALID;
    }
    return DISIR_STATUS_INTERNAL_ERROR;
}
struct World
{
    Case& c; Rng& r; GenOpt o; std::string top; Site a, b; std::vector<Kind> kinds; std::vector<Ent> es;
    explicit World (Case& x) : c (x), r (x.r) {}
};
// an archive made by the library, some of its entries altered afterwards
static bool set_up (World& w, std::string& path)
{
    Case& c = w.c;
    Rng& r = w.r;
    w.a.dir = w.top + "/a"; w.b.dir = w.top + "/b";
    w.a.groups.reserve (8); w.b.groups.reserve (8); w.kinds.reserve (64); w.es.reserve (16);
    if (!w.a.in.make (c) || !w.b.in.make (c)) return false;
    int ng = (int) r.range (1, 3);
    for (int i = 0; i < ng; i++)
    {
        auto name = r.chance (2, 3) ? strf ("grp%d", i) : std::string (GROUPS[r.below (sizeof GROUPS / sizeof *GROUPS)]);
        if (w.a.find (name)) continue;
        auto kind = r.chance (1, 2) ? JSON_PLUGIN : TOML_PLUGIN;
        Group& g = w.a.add (c, name, kind);
        int fate = (int) r.below (16);
        Group *h = fate == 0 ? nullptr : &w.b.add (c, name, fate == 1 ? (kind == JSON_PLUGIN ? TOML_PLUGIN : JSON_PLUGIN) : kind);
        int ne = (int) r.range (1, 4);
        for (int k = 0; k < ne; k++)
        {
            Ent e;
            e.group = name; e.kind = kind; e.id = entry_id (r, k);
            bool clash = false;
            for (auto& x : w.es) if (x.group == name && (x.id == e.id || under (x.id, e.id) || under (e.id, x.id))) clash = true;
            if (clash) continue;
            GenOpt o = w.o;
            MMold m = gen_mold (r, o);
            if (r.chance (1, 3)) { MMold n = m; n.ver = Ver {m.ver.a, m.ver.b + (uint32_t) r.range (1, 3)}; renew (r, n, n.ver, o); n.ver = mold_version (n); m = n; }
            e.am = m;
            e.rel = fate == 0 ? GROUP_MISSING : fate == 1 ? BACKEND : r.pick ({SAME, SAME, SAME, SAME, SAME, SAME, RENEWED, RENEWED, RENEWED, RENEWED, OLDER, OLDER, OTHER, SAME, r.pick ({MOLD_MISSING, MOLD_GARBAGE})});
            w.kinds.emplace_back ();
            w.kinds.back ().m = m;
            auto *am = w.kinds.back ().mold = build_mold (c, m);
            if (!am) return false;
            MMold bm = m;
            auto vs = breakpoints (m);
            if (e.rel == OLDER) bm = older (m, r.pick (vs));
            if (e.rel == RENEWED) { bm.ver = Ver {m.ver.a, m.ver.b + (uint32_t) r.range (1, 3)}; renew (r, bm, bm.ver, o); bm.ver = mold_version (bm); }
            if (e.rel == OTHER) bm = gen_mold (r, o);
            struct disir_mold *bmold = am;
            if (e.rel == OLDER || e.rel == RENEWED || e.rel == OTHER)
            {
                w.kinds.emplace_back ();
                w.kinds.back ().m = bm;
                bmold = w.kinds.back ().mold = build_mold (c, bm);
                if (!bmold) return false;
            }
            MConfig x = config_for (r, m, o, 1);
            if (e.rel == OLDER && r.chance (1, 2)) x = config_for (r, bm, o, 1);
            if (!in_mold (m, x)) x = config_for (r, m, o, 1);
            if (!write_mold (c, w.a, g, e.id, am) || !install (c, w.a, g, e.id, am, x)) return false;
            e.aver = x.ver;
            std::string t;
            if (!slurp (g.cdir + "/" + e.id + g.ext, e.text)) { c.violation ("harness", "no file for %s", e.id.c_str ()); return false; }
            if (h && e.rel != MOLD_MISSING)
            {
                if (!write_mold (c, w.b, *h, e.id, bmold)) return false;
                if (e.rel == MOLD_GARBAGE) spill (h->mdir + "/" + e.id + ".json", r.pick ({"", "{", "{\"mold\": 3}", "not a mold"}));
            }
            // what is installed
            if (h && e.rel != BACKEND && e.rel != MOLD_MISSING && e.rel != MOLD_GARBAGE)
            {
                MConfig y;
                int how = (int) (r.chance (1, 5) ? 0 : r.below (8));
                bool put = false;
                if (how == 1 || how == 2) { y = x; put = in_mold (bm, y); }
                if (how == 3 || how == 4)
                {
                    y = x;
                    auto bvs = breakpoints (bm);
                    y.ver = r.pick (bvs);
                    put = in_mold (bm, y);
                }
                if (how >= 5 || (how && !put && r.chance (1, 2))) { y = config_for (r, bm, o, 1); if (r.chance (1, 2) && x.ver <= bm.ver) { y.ver = x.ver; y.root = gen_config (r, bm, y.ver, o); y.root.section = true; } put = true; }
                if (put && !install (c, w.b, *h, e.id, bmold, y)) return false;
                if (put && r.chance (1, 10))
                {
                    e.file = h->cdir + "/" + e.id + h->ext;
                    slurp (e.file, t);
                    auto g2 = garble (r, h->kind, t, r.chance (1, 2));
                    if (r.chance (1, 3))
                    {
                        auto v = y.ver.str ();
                        auto at = t.find (v);
                        g2 = at == std::string::npos ? g2 : t.substr (0, at) + strf ("%u.%u", bm.ver.a + 1, 3u) + t.substr (at + v.size ());
                    }
                    spill (e.file, g2);
                }
            }
            w.es.push_back (e);
        }
    }
    // the archive
    struct disir_archive *ar = nullptr;
    if (!EXPECT_OK (c, disir_archive_export_begin (w.a.in.p, nullptr, &ar))) return false;
    for (auto& e : w.es) if (!EXPECT_OK (c, disir_archive_append_entry (w.a.in.p, ar, e.group.c_str (), e.id.c_str ()))) { disir_archive_finalize (w.a.in.p, nullptr, &ar); return false; }
    path = w.top + "/out/x.disir";
    if (!EXPECT_OK (c, disir_archive_finalize (w.a.in.p, path.c_str (), &ar))) return false;
    std::string bytes;
    std::vector<Member> ms;
    slurp (path, bytes);
    if (!unpack (bytes, ms)) { c.violation ("container", "the archive written cannot be read back"); return false; }
    bool altered = false;
    for (auto& e : w.es)
        for (auto& m : ms)
        {
            auto tail = "/" + e.group + "/" + e.id;
            if (m.type != AE_IFREG || m.name.size () < tail.size () || m.name.compare (m.name.size () - tail.size (), tail.size (), tail)) continue;
            e.text = m.data;
            if (r.chance (1, 12)) { m.data = e.text = garble (r, e.kind, e.text, r.chance (1, 2)); altered = true; }
        }
    if (altered) spill (path, pack (ms, XZ));
    return true;
}
// the classification, from the texts
static bool classify (World& w, Ent& e)
{
    Case& c = w.c;
    Group *h = w.b.find (e.group);
    e.want = S_NO;
    c.count ("entries");
    if (!h) { c.count ("group_missing"); return true; }
    e.file = h->cdir + "/" + e.id + h->ext;
    if (h->kind != e.kind) { c.count ("backend_differs"); return true; }
    if (disir_mold_read (w.b.in.p, e.group.c_str (), e.id.c_str (), &e.bmold) != DISIR_STATUS_OK || !e.bmold) { c.count ("mold_missing"); if (e.bmold) disir_mold_finished (&e.bmold); return true; }
    MMold bm;
    disir_version v;
    struct disir_context *ctx = dc_mold_getcontext (e.bmold);
    EXPECT_OK (c, dc_get_version (ctx, &v));
    dc_putcontext (&ctx);
    e.bver = ver_of (v);
    e.read = read_text (e.kind, w.b.in.p, e.text, e.bmold, &e.cfg);
    if (e.read == DISIR_STATUS_CONFLICTING_SEMVER) { c.count ("mold_older"); e.want = S_NO; return true; }
    if (e.read != DISIR_STATUS_OK) { e.want = S_INVALID; return true; }
    if (!dump_config (c, e.cfg, e.x)) return false;
    e.installed = slurp (e.file, e.here);
    if (!e.installed) { e.want = e.x.ver == e.bver ? S_OK : S_SEMVER_MOLD; return true; }
    struct disir_config *was = nullptr;
    auto st = read_text (e.kind, w.b.in.p, e.here, e.bmold, &was);
    e.readable = st == DISIR_STATUS_OK;
    if (e.readable && !dump_config (c, was, e.was)) return false;
    if (was) disir_config_finished (&was);
    if (!e.readable) { c.count ("installed_unreadable"); e.want = S_CONFLICT; return true; }
    bool equal = grouped (e.x.root) == grouped (e.was.root);
    if (e.was.ver > e.x.ver) c.count ("installed_newer");
    if (e.was.ver < e.x.ver) c.count ("installed_older");
    e.want = !equal ? S_CONFLICT : e.x.ver == e.was.ver ? S_IDENTICAL : S_SEMVER_HERE;
    return true;
}
// the archived configuration updated to the mold, its own values kept
static enum disir_status updated (Case& c, Ent& e, bool discard, MConfig& out)
{
    struct disir_update *up = nullptr;
    auto st = disir_update_config (e.cfg, nullptr, &up);
    bool dropped = false;
    long n = 0;
    while (st == DISIR_STATUS_CONFLICT && up && n++ < 10000)
    {
        const char *name, *kv, *mo;
        st = disir_update_conflict (up, &name, &kv, &mo);
        if (st != DISIR_STATUS_OK) break;
        std::string k = kv, m = mo;
        st = disir_update_resolve (up, k.c_str ());
        if (st == DISIR_STATUS_RESTRICTION_VIOLATED && discard) { dropped = true; st = disir_update_resolve (up, m.c_str ()); }
        if (st != DISIR_STATUS_OK) break;
        st = disir_update_continue (up);
    }
    struct disir_config *got = nullptr;
    if (up) disir_update_finished (&up, st == DISIR_STATUS_OK ? &got : nullptr);
    if (got) { if (!dump_config (c, got, out)) st = DISIR_STATUS_INTERNAL_ERROR; disir_config_finished (&got); }
    if (st == DISIR_STATUS_OK && dropped) c.count ("values_discarded");
    if (st == DISIR_STATUS_RESTRICTION_VIOLATED) c.count ("update_violates");
    return st;
}
static const char *oname (int o)
{
    switch (o) { case DISIR_IMPORT_UPDATE: return "update"; case DISIR_IMPORT_FORCE: return "force"; case DISIR_IMPORT_DO: return "do"; case DISIR_IMPORT_DISCARD: return "discard"; case DISIR_IMPORT_UPDATE_WITH_DISCARD: return "update-with-discard"; }
    return "no option";
}
static void check_listed (World& w, struct disir_import *im, const std::vector<Listed>& l, size_t i, Ent& e, const char *when)
{
    Case& c = w.c;
    const char *id = nullptr, *g = nullptr, *v = nullptr, *info = nullptr;
    auto st = disir_import_entry_status (im, (int) i, &id, &g, &v, w.r.chance (1, 2) ? &info : nullptr);
    if (!id || !g || !v || l[i].id != id || l[i].group != g || l[i].version != v) c.violation ("status:entry", "%s: entry %zu is no longer what it was listed as", when, i);
    if (st != outward (e.want)) c.violation (strf ("status:%s", SNAME[e.want]), "%s: %s of group %s (%s; archived at %s, mold at %s, %s%s): listed as %s, it is %s; chosen so far:%s", when, quote (e.id).c_str (), quote (e.group).c_str (), RNAME[e.rel], e.x.ver.str ().c_str (), e.bver.str ().c_str (), e.installed ? "installed at " : "not installed", e.installed ? (e.readable ? e.was.ver.str ().c_str () : "(unreadable)") : "", sname (st), SNAME[e.want], e.history.c_str ());
}
static void resolve (World& w, struct disir_import *im, size_t i, Ent& e)
{
    Case& c = w.c;
    Rng& r = w.r;
    int opt = r.pick ({(int) DISIR_IMPORT_DO, (int) DISIR_IMPORT_DO, (int) DISIR_IMPORT_FORCE, (int) DISIR_IMPORT_UPDATE, (int) DISIR_IMPORT_UPDATE, (int) DISIR_IMPORT_UPDATE_WITH_DISCARD, (int) DISIR_IMPORT_DISCARD, (int) DISIR_IMPORT_DISCARD, r.pick ({0, 6, 7})});
    if (e.chosen && r.chance (1, 3)) opt = DISIR_IMPORT_DISCARD;
    if (!e.chosen && opt == DISIR_IMPORT_DISCARD && r.chance (1, 2)) opt = e.want == S_OK ? DISIR_IMPORT_DO : DISIR_IMPORT_UPDATE;
    MConfig up;
    auto want = DISIR_STATUS_OK;
    bool to_choose = true;
    if (e.want == S_NO || e.want == S_INVALID) want = DISIR_STATUS_NO_CAN_DO;
    else if (e.chosen && opt != DISIR_IMPORT_DISCARD) want = DISIR_STATUS_NO_CAN_DO;
    else
        switch (opt)
        {
        case DISIR_IMPORT_DISCARD: to_choose = false; break;
        case DISIR_IMPORT_FORCE: up = e.x; break;
        case DISIR_IMPORT_DO: if (e.want == S_OK || e.want == S_SEMVER_MOLD) up = e.x; else want = DISIR_STATUS_NO_CAN_DO; break;
        case DISIR_IMPORT_UPDATE: case DISIR_IMPORT_UPDATE_WITH_DISCARD:
            if (e.want == S_OK || e.want == S_IDENTICAL) want = DISIR_STATUS_NO_CAN_DO;
            else want = updated (c, e, opt == DISIR_IMPORT_UPDATE_WITH_DISCARD, up);
            break;
        default: want = DISIR_STATUS_INVALID_ARGUMENT;
        }
    auto st = disir_import_resolve_entry (im, (int) i, (enum disir_import_option) opt);
    c.log ("resolve %s with %s: %s", e.id.c_str (), oname (opt), sname (st));
    if (st != want) { c.violation (strf ("resolve:%s:%s", oname (opt), SNAME[e.want]), "resolving %s of group %s, which is %s, with %s after%s returned %s, expected %s", quote (e.id).c_str (), quote (e.group).c_str (), SNAME[e.want], oname (opt), e.history.c_str (), sname (st), sname (want)); return; }
    if (st == DISIR_STATUS_OK)
    {
        if (e.chosen) c.count ("reconsidered");
        if (to_choose && e.history.find ("update") != std::string::npos) c.count ("after_update_other");
        e.chosen = to_choose;
        if (to_choose) e.content = up;
        e.history += strf (" %s", oname (opt));
        c.count (opt == DISIR_IMPORT_DO ? "resolved_do" : opt == DISIR_IMPORT_FORCE ? "resolved_force" : opt == DISIR_IMPORT_UPDATE ? "resolved_update" : opt == DISIR_IMPORT_DISCARD ? "resolved_discard" : "resolved_update_discard");
    }
    else { c.count ("refused"); e.history += strf (" (%s)", oname (opt)); }
}
void driver_case (Case& c)
{
    Rng& r = c.r;
    World w (c);
    w.o.depth = (int) r.range (1, 3); w.o.width = (int) r.range (2, 5); w.o.strings = (int) r.below (3); w.o.docs = r.chance (1, 3);
    w.top = scratch_dir () + "/w";
    wipe (w.top);
    mkdirs (w.top + "/out");
    box_reset ();
    std::string path;
    struct disir_import *im = nullptr;
    struct import_report *rep = nullptr;
    bool ok = set_up (w, path);
    for (auto& e : w.es) ok = ok && classify (w, e);
    if (ok && !w.es.empty () && !c.failed)
    {
        Snap before, after;
        snapshot (w.b.dir, "", before);
        int n = -1;
        auto st = boxed ([&] { return disir_archive_import (w.b.in.p, path.c_str (), &im, &n); });
        c.count ("imports");
        if (st != DISIR_STATUS_OK || !im || n != (int) w.es.size ())
        {
            std::string all;
            for (auto& e : w.es) all += strf (" %s:%s:%s%s", quote (e.id).c_str (), RNAME[e.rel], SNAME[e.want], e.installed && !e.readable ? " (installed one unreadable)" : "");
            c.violation ("import", "opening the archive returned %s with %d of %zu entries: %s;%s", sname (st), n, w.es.size (), w.b.in.error ().c_str (), all.c_str ());
        }
        std::vector<Listed> l;
        std::vector<Ent *> at;
        if (!c.failed && listing (c, im, n, l))
            for (auto& x : l)
            {
                Ent *e = nullptr;
                for (auto& y : w.es) if (y.group == x.group && y.id == x.id) e = &y;
                if (!e) { c.violation ("listed", "%s of group %s is listed", quote (x.id).c_str (), quote (x.group).c_str ()); break; }
                if (x.version != e->aver.str ()) c.violation ("version", "%s is listed with version %s, archived at %s", quote (x.id).c_str (), x.version.c_str (), e->aver.str ().c_str ());
                at.push_back (e);
                check_listed (w, im, l, at.size () - 1, *e, "opened");
                if (e->want == S_SEMVER_MOLD || e->want == S_SEMVER_HERE)
                {
                    auto other = (e->want == S_SEMVER_MOLD ? e->bver : e->was.ver).str ();
                    if (x.info.find (e->x.ver.str ()) == std::string::npos || x.info.find (other) == std::string::npos) c.violation ("info", "%s is archived at %s and there is %s: the information is %s", quote (x.id).c_str (), e->x.ver.str ().c_str (), other.c_str (), quote (x.info).c_str ());
                }
                static const char *cn[] = {"status_ok", "status_identical", "status_conflict", "status_semver_installed", "status_semver_mold", "status_no_can_do", "status_invalid"};
                c.count (cn[e->want]);
            }
        if (!c.failed)
        {
            snapshot (w.b.dir, "", after);
            if (after != before) c.violation ("open:writes", "opening the archive changed the installation");
        }
        for (int k = (int) r.below (4 * n + 3); k > 0 && !c.failed; k--)
        {
            size_t i = r.below (at.size ());
            if ((at[i]->want == S_NO || at[i]->want == S_INVALID) && r.chance (2, 3)) i = r.below (at.size ());
            resolve (w, im, i, *at[i]);
            if (!c.failed) check_listed (w, im, l, i, *at[i], "resolved");
            if (r.chance (1, 5))
            {
                const char *x = nullptr, *y = nullptr, *z = nullptr;
                int bad = r.pick ({-1, n, n + 1, 1 << 30, INT_MIN});
                if (disir_import_resolve_entry (im, bad, DISIR_IMPORT_FORCE) != DISIR_STATUS_INVALID_ARGUMENT || disir_import_resolve_entry (nullptr, 0, DISIR_IMPORT_FORCE) != DISIR_STATUS_INVALID_ARGUMENT
                    || disir_import_entry_status (im, bad, &x, &y, &z, nullptr) != DISIR_STATUS_INVALID_ARGUMENT || disir_import_entry_status (nullptr, 0, &x, &y, &z, nullptr) != DISIR_STATUS_INVALID_ARGUMENT
                    || disir_import_entry_status (im, 0, nullptr, &y, &z, nullptr) != DISIR_STATUS_INVALID_ARGUMENT || disir_import_entry_status (im, 0, &x, nullptr, &z, nullptr) != DISIR_STATUS_INVALID_ARGUMENT || disir_import_entry_status (im, 0, &x, &y, nullptr, nullptr) != DISIR_STATUS_INVALID_ARGUMENT)
                    c.violation ("arguments", "an entry number out of range, or a NULL pointer, was not refused");
                c.count ("invalid_arguments");
            }
        }
        if (!c.failed)
        {
            snapshot (w.b.dir, "", after);
            if (after != before) c.violation ("resolve:writes", "resolving changed the installation");
        }
        // something comes in the way of some
        std::vector<std::string> put;
        if (!c.failed && r.chance (1, 3))
            for (auto *e : at)
                if (e->chosen && !e->installed && r.chance (1, 2))
                {
                    mkdirs (e->file + "/in_the_way");
                    e->blocked = true;
                }
        before.clear ();
        snapshot (w.b.dir, "", before);
        if (!c.failed && r.chance (1, 6))
        {
            st = disir_import_finalize (w.b.in.p, r.pick ({DISIR_IMPORT_FORCE, DISIR_IMPORT_UPDATE, DISIR_IMPORT_UPDATE_WITH_DISCARD, (enum disir_import_option) 0, (enum disir_import_option) 7}), &im, r.chance (1, 2) ? &rep : nullptr);
            if (st != DISIR_STATUS_INVALID_ARGUMENT || !im || rep) c.violation ("finalize:option", "finalizing with another option returned %s", sname (st));
        }
        if (!c.failed && im)
        {
            bool go = r.chance (4, 5), with = r.chance (2, 3);
            auto *was = im;
            st = boxed ([&] { return disir_import_finalize (w.b.in.p, go ? DISIR_IMPORT_DO : DISIR_IMPORT_DISCARD, &im, with ? &rep : nullptr); });
            c.count (go ? "finalized" : "discarded_import");
            if (st != DISIR_STATUS_OK) c.violation ("finalize", "finishing the import returned %s", sname (st));
            if (im) { c.violation ("finalize:handle", "after %s the handle is still there", go ? "finishing" : "discarding"); im = nullptr; }
            (void) was;
            long failures = 0, total = 0;
            for (auto *e : at) { total += go && e->chosen; failures += go && e->blocked; }
            auto text = w.b.in.error ();
            if (failures ? text.find (strf ("%ld of %ld", failures, total)) == std::string::npos : !text.empty ()) c.violation ("finalize:text", "%ld of %ld chosen entries could not be written, the error text is %s", failures, total, quote (text).c_str ());
            if (go && with)
            {
                c.count ("reports");
                if (!rep || rep->ir_entries != n) c.violation ("report", "no report, or one of %d entries for %d", rep ? rep->ir_entries : -1, n);
                for (int i = 0; i < n && !c.failed; i++)
                {
                    Ent& e = *at[i];
                    std::string want = e.want == S_NO || e.want == S_INVALID ? "Not importable: " + e.id : !e.chosen ? "Discarded:      " + e.id : e.blocked ? "Failed:         " + e.id : "Imported:       " + e.id + " (" + e.content.ver.str () + ")";
                    std::string got = rep->ir_entry[i] ? rep->ir_entry[i] : "(null)";
                    if (got != want) c.violation ("report:entry", "the report says %s, expected %s", quote (got).c_str (), quote (want).c_str ());
                }
            }
            else if (rep) c.violation ("report:discard", "a report of a discarded import");
            if (rep) { disir_import_report_destroy (&rep); if (rep) c.violation ("report:destroy", "the report is still there"); }
            // what is there now
            after.clear ();
            snapshot (w.b.dir, "", after);
            std::set<std::string> changed;
            for (auto *e : at)
            {
                if (c.failed) break;
                auto rel = e->file.empty () ? "" : e->file.substr (w.b.dir.size () + 1);
                if (go && e->blocked) c.count ("failed_writes");
                if (go && e->chosen && !e->blocked)
                {
                    changed.insert (rel);
                    MConfig got;
                    if (!read_back (c, w.b, e->group, e->id, got, &st)) c.violation ("written:read", "%s, chosen by%s, reads back with %s", quote (e->id).c_str (), e->history.c_str (), sname (st));
                    else if (!same (got, e->content)) c.violation ("written:content", "%s (archived at %s, mold at %s), chosen by%s: expected version %s, written %s; %s", quote (e->id).c_str (), e->x.ver.str ().c_str (), e->bver.str ().c_str (), e->history.c_str (), e->content.ver.str ().c_str (), got.ver.str ().c_str (), first_difference (grouped (e->content.root), grouped (got.root)).c_str ());
                    c.count ("written");
                }
                else c.count ("untouched");
            }
            for (auto& f : before) if (!c.failed && !changed.count (f.first) && (!after.count (f.first) || after[f.first] != f.second)) c.violation ("untouched", "%s was changed by the import", quote (f.first).c_str ());
            for (auto& f : after) if (!c.failed && f.first.back () != '/' && !changed.count (f.first) && !before.count (f.first)) c.violation ("surplus", "%s was made by the import", quote (f.first).c_str ());
        }
        no_leftovers (c, "the import");
        for (auto& e : w.es) c.nontrivial (e.text + strf ("%d%d", e.rel, e.want) + e.here + e.history);
        if (c.no % 97 == 3) { std::string s; for (auto& e : w.es) s += strf ("%s: %s, %s, chosen:%s\n", e.id.c_str (), RNAME[e.rel], SNAME[e.want], e.history.c_str ()); c.sample (s); }
    }
    if (rep) disir_import_report_destroy (&rep);
    if (im) disir_import_finalize (w.b.in.p, DISIR_IMPORT_DISCARD, &im, nullptr);
    no_leftovers (c, "the history");
    for (auto& e : w.es) { if (e.cfg) disir_config_finished (&e.cfg); if (e.bmold) disir_mold_finished (&e.bmold); }
    w.a.in.done (c);
    w.b.in.done (c);
    for (auto& k : w.kinds) if (k.mold) disir_mold_finished (&k.mold);
    wipe (w.top);
}
