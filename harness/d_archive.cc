// C24: export then import reproduces every exported entry.
#include "arch.inc"
const char *PROPERTY = "C24";
const char *RULE = "one history of archive openings, appends and finalizations over an installation with one to four groups, every archive imported into an installation of its own; distinct by the installation and the history; non-trivial: an archive with at least one entry was finalized";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"archives", 800}, {"entries_archived", 2000}, {"groups_archived", 300}, {"reopened", 300}, {"extended", 70}, {"imported", 2500}, {"read_back", 2500}, {"same_as_installed", 800}, {"several_backends", 100}, {"odd_groups", 400}, {"old_versions", 150},
    {"refused_twice", 200}, {"refused_absent", 200}, {"refused_group", 100}, {"discarded", 60}, {"changed_after", 200}, {"large", 150}, {"over_64k", 60}};
long driver_directed () { return 0; }
void driver_setup () { setup_box (); }

struct Held { std::string group, entry; MConfig x; };
typedef std::map<std::string, Held> Content;             // by group and entry
struct Arch { std::string path; Content have; };
struct World
{
    Case& c; Rng& r; GenOpt o; std::string top; std::vector<Kind> kinds; Site a, b;
    explicit World (Case& x) : c (x), r (x.r) {}
};
static MConfig content (Case& c, const MMold& m, const GenOpt& o)
{
    auto x = config_for (c.r, m, o);
    if (c.r.chance (1, 6))
    {
        static const long at[] = {9800, 16300, 32700, 65400, 130900};       // where buffers end
        long size = c.r.chance (1, 2) ? at[c.r.below (5)] + (long) c.r.below (200) : c.r.range (10000, 300000);
        if (inflate (c.r, x.root, size)) { c.count ("large"); if (size > 65600) c.count ("over_64k"); }
    }
    return x;
}
static bool populate (World& w)
{
    Case& c = w.c;
    Rng& r = w.r;
    int nk = (int) r.range (1, 3);
    for (int i = 0; i < nk; i++)
    {
        w.kinds.emplace_back ();
        w.kinds.back ().m = gen_mold (r, w.o);
        if (!(w.kinds.back ().mold = build_mold (c, w.kinds.back ().m))) return false;
    }
    w.a.dir = w.top + "/a"; w.b.dir = w.top + "/b";
    if (!w.a.in.make (c) || !w.b.in.make (c)) return false;
    int ng = (int) r.range (1, 4);
    std::set<std::string> names;
    w.a.groups.reserve (8); w.b.groups.reserve (8);
    while ((int) names.size () < ng) names.insert (r.chance (1, 2) ? GROUPS[0] + std::string (names.size (), 'x') : GROUPS[r.below (sizeof GROUPS / sizeof *GROUPS)]);
    for (auto& n : names)
    {
        auto kind = r.chance (1, 2) ? JSON_PLUGIN : TOML_PLUGIN;
        if (n.compare (0, 3, "grp") != 0) c.count ("odd_groups");
        Group& g = w.a.add (c, n, kind);
        Group& h = w.b.add (c, n, kind);
        int ne = (int) r.range (0, 5);
        for (int i = 0; i < ne; i++)
        {
            auto id = entry_id (r, i);
            int k = (int) r.below (nk);
            bool clash = g.molds.count (id) > 0;
            for (auto& m : g.molds) if (under (m.first, id) || under (id, m.first)) clash = true;     // a file and a directory
            if (clash) continue;
            if (!write_mold (c, w.a, g, id, w.kinds[k].mold) || !write_mold (c, w.b, h, id, w.kinds[k].mold)) return false;
            g.molds[id] = h.molds[id] = k;
            if (r.chance (6, 7) && !install (c, w.a, g, id, w.kinds[k].mold, content (c, w.kinds[k].m, w.o))) return false;
        }
    }
    return !c.failed;
}
// all of an archive, imported into an installation of its own
static void verify (World& w, const std::string& path, const Content& have, const char *when)
{
    Case& c = w.c;
    struct disir_import *im = nullptr;
    int n = -1;
    bool own = w.r.chance (1, 3);           // the installation it came from, or an empty one
    Site& s = own ? w.a : w.b;
    auto st = boxed ([&] { return disir_archive_import (s.in.p, path.c_str (), &im, &n); });
    if (st != DISIR_STATUS_OK || !im) { c.violation ("import", "%s: importing %s returned %s: %s", when, quote (path).c_str (), sname (st), s.in.error ().c_str ()); if (im) disir_import_finalize (s.in.p, DISIR_IMPORT_DISCARD, &im, nullptr); return; }
    std::vector<Listed> l;
    if (!listing (c, im, n, l)) { disir_import_finalize (s.in.p, DISIR_IMPORT_DISCARD, &im, nullptr); return; }
    std::set<std::string> seen;
    std::vector<std::string> listed;
    for (auto& e : l)
    {
        auto k = key_of (e.group, e.id);
        auto it = have.find (k);
        if (it == have.end ()) c.violation ("list:surplus", "%s: the archive lists %s of group %s, which it was not given", when, quote (e.id).c_str (), quote (e.group).c_str ());
        else if (!seen.insert (k).second) c.violation ("list:twice", "%s: the archive lists %s of group %s twice", when, quote (e.id).c_str (), quote (e.group).c_str ());
        else if (e.version != it->second.x.ver.str ()) c.violation ("list:version", "%s: %s of group %s is listed with version %s, was exported at %s", when, quote (e.id).c_str (), quote (e.group).c_str (), e.version.c_str (), it->second.x.ver.str ().c_str ());
        listed.push_back (k);
    }
    for (auto& h : have) if (!seen.count (h.first)) { c.violation ("list:missing", "%s: the archive does not list %s of group %s (%d entries)", when, quote (h.second.entry).c_str (), quote (h.second.group).c_str (), n); break; }
    // choose all of them
    for (int i = 0; i < n && !c.failed; i++)
    {
        auto& h = have.at (listed[i]);
        bool fresh = !s.find (h.group)->installed.count (h.entry);
        auto opt = fresh && w.r.chance (2, 3) ? DISIR_IMPORT_DO : DISIR_IMPORT_FORCE;
        st = disir_import_resolve_entry (im, i, opt);
        if (st != DISIR_STATUS_OK) c.violation ("resolve", "%s: choosing %s (listed as %s) of group %s for import %s returned %s", when, quote (h.entry).c_str (), sname (l[i].st), quote (h.group).c_str (), opt == DISIR_IMPORT_DO ? "" : "by force", sname (st));
    }
    struct import_report *rep = nullptr;
    if (!c.failed)
    {
        st = boxed ([&] { return disir_import_finalize (s.in.p, DISIR_IMPORT_DO, &im, w.r.chance (1, 2) ? &rep : nullptr); });
        if (st != DISIR_STATUS_OK || im) c.violation ("finalize", "%s: finishing the import returned %s", when, sname (st));
        if (!s.in.error ().empty ()) c.violation ("finalize:text", "%s: finishing the import reported %s", when, s.in.error ().c_str ());
        if (rep) disir_import_report_destroy (&rep);
        c.count ("imported", n);
        for (auto& h : have)
        {
            MConfig got;
            if (c.failed) break;
            bool ok = read_back (c, s, h.second.group, h.second.entry, got, &st);
            if (!ok) c.violation ("restored:read", "%s: %s of group %s reads back with %s", when, quote (h.second.entry).c_str (), quote (h.second.group).c_str (), sname (st));
            else if (!same (got, h.second.x)) c.violation ("restored:content", "%s: %s of group %s was exported at %s, came back at %s: %s", when, quote (h.second.entry).c_str (), quote (h.second.group).c_str (), h.second.x.ver.str ().c_str (), got.ver.str ().c_str (), first_difference (grouped (h.second.x.root), grouped (got.root)).c_str ());
            c.count ("read_back");
            s.find (h.second.group)->installed[h.second.entry] = h.second.x;
            if (own) c.count ("same_as_installed");
        }
    }
    if (im) disir_import_finalize (s.in.p, DISIR_IMPORT_DISCARD, &im, nullptr);
    // nothing else in the installation
    if (!c.failed)
        for (auto& g : s.groups)
        {
            Snap files;
            snapshot (g.cdir, "", files);
            for (auto& f : files) if (f.first.back () != '/' && !g.installed.count (f.first.substr (0, f.first.size () - g.ext.size ()))) { c.violation ("surplus-file", "%s: the import made %s", when, quote (f.first).c_str ()); break; }
        }
    if (!own)       // empty again
        for (auto& g : s.groups) { wipe (g.cdir); mkdirs (g.cdir); g.installed.clear (); }
    c.nontrivial (std::string (when) + path + strf ("%zu", have.size ()) + (have.empty () ? "" : have.begin ()->second.x.str ()));
}
void driver_case (Case& c)
{
    Rng& r = c.r;
    World w (c);
    w.o.depth = (int) r.range (1, 3); w.o.width = (int) r.range (2, 5); w.o.strings = (int) r.below (3);
    w.top = scratch_dir () + "/w";
    wipe (w.top);
    mkdirs (w.top + "/out");
    box_reset ();
    struct disir_archive *ar = nullptr;
    if (populate (w))
    {
        std::vector<Arch> archives;
        int rounds = (int) r.range (1, 3);
        for (int round = 0; round < rounds && !c.failed; round++)
        {
            Arch now;
            Arch *from = nullptr;
            if (!archives.empty () && r.chance (2, 3)) { from = &archives[r.below (archives.size ())]; now.have = from->have; }
            auto st = boxed ([&] { return disir_archive_export_begin (w.a.in.p, from ? from->path.c_str () : nullptr, &ar); });
            c.log ("begin %s: %s", from ? from->path.c_str () : "new", sname (st));
            if (st != DISIR_STATUS_OK || !ar) { c.violation ("begin", "opening %s for export returned %s: %s", from ? from->path.c_str () : "a new archive", sname (st), w.a.in.error ().c_str ()); break; }
            if (from) c.count ("reopened");
            size_t had = now.have.size ();
            std::string from_path = from ? from->path : "";
            int steps = (int) r.range (0, 8);
            for (int k = 0; k < steps && !c.failed; k++)
            {
                Group& g = w.a.groups[r.below (w.a.groups.size ())];
                int what = (int) r.below (12);
                if (what < 3)
                {
                    bool present = false;
                    for (auto& h : now.have) present = present || h.second.group == g.name;
                    st = boxed ([&] { return disir_archive_append_group (w.a.in.p, ar, g.name.c_str ()); });
                    c.log ("append group %s (%zu entries%s): %s", g.name.c_str (), g.installed.size (), present ? ", present" : "", sname (st));
                    auto want = present ? DISIR_STATUS_EXISTS : g.installed.empty () ? DISIR_STATUS_NOT_EXIST : DISIR_STATUS_OK;
                    if (st != want) c.violation ("append-group", "appending group %s (%zu entries%s) returned %s, expected %s: %s", quote (g.name).c_str (), g.installed.size (), present ? ", already there" : "", sname (st), sname (want), w.a.in.error ().c_str ());
                    if (st == DISIR_STATUS_OK) { c.count ("groups_archived"); for (auto& e : g.installed) now.have[key_of (g.name, e.first)] = {g.name, e.first, e.second}; }
                    else c.count (present ? "refused_twice" : "refused_absent");
                }
                else if (what < 9 && !g.molds.empty ())
                {
                    auto it = g.molds.begin ();
                    std::advance (it, r.below (g.molds.size ()));
                    auto id = it->first;
                    bool inst = g.installed.count (id), present = now.have.count (key_of (g.name, id));
                    st = boxed ([&] { return disir_archive_append_entry (w.a.in.p, ar, g.name.c_str (), id.c_str ()); });
                    c.log ("append %s of %s: %s", id.c_str (), g.name.c_str (), sname (st));
                    auto want = present ? DISIR_STATUS_EXISTS : inst ? DISIR_STATUS_OK : DISIR_STATUS_NOT_EXIST;
                    if (st != want) c.violation ("append-entry", "appending %s of group %s (%s%s) returned %s: %s", quote (id).c_str (), quote (g.name).c_str (), inst ? "installed" : "absent", present ? ", already there" : "", sname (st), w.a.in.error ().c_str ());
                    if (st == DISIR_STATUS_OK) now.have[key_of (g.name, id)] = {g.name, id, g.installed[id]};
                    else c.count (present ? "refused_twice" : "refused_absent");
                    if (st == DISIR_STATUS_OK && g.installed[id].ver != w.kinds[g.molds[id]].m.ver) c.count ("old_versions");
                }
                else if (what < 10)
                {
                    const char *grp = r.chance (1, 2) ? "nosuchgroup" : g.name.c_str ();
                    st = boxed ([&] { return disir_archive_append_entry (w.a.in.p, ar, grp, "no/such/entry"); });
                    if (st == DISIR_STATUS_OK) c.violation ("append-absent", "appending an entry that does not exist returned OK");
                    auto s2 = boxed ([&] { return disir_archive_append_group (w.a.in.p, ar, "nosuchgroup"); });
                    if (s2 == DISIR_STATUS_OK) c.violation ("append-nogroup", "appending a group that does not exist returned OK");
                    c.count ("refused_group");
                }
                else if (!g.installed.empty ())
                {
                    // the installation goes on; what is in the archive stays
                    auto it = g.installed.begin ();
                    std::advance (it, r.below (g.installed.size ()));
                    auto id = it->first;
                    auto& kd = w.kinds[g.molds[id]];
                    c.log ("change %s of %s", id.c_str (), g.name.c_str ());
                    install (c, w.a, g, id, kd.mold, content (c, kd.m, w.o));
                    c.count ("changed_after");
                }
            }
            if (c.failed) break;
            // to a place of its own, in place of the one extended, or nowhere
            int how = (int) r.below (8);
            std::string path = from && r.chance (1, 2) ? from->path : w.top + strf ("/out/%s%d.disir", r.pick ({"x", "a b", "archive.tar", ".hid", "\xc3\xa6"}), (int) archives.size ());
            if (how == 0 || (now.have.empty ()))
            {
                st = boxed ([&] { return disir_archive_finalize (w.a.in.p, nullptr, &ar); });
                c.log ("discard: %s", sname (st));
                if (st != DISIR_STATUS_OK || ar) c.violation ("discard", "discarding the archive returned %s", sname (st));
                c.count ("discarded");
            }
            else
            {
                std::string given = path;
                if (r.chance (1, 4)) given = path.substr (0, path.size () - 6);         // the suffix is added
                if (from && given == path.substr (0, path.size () - 6)) given = path;
                st = boxed ([&] { return disir_archive_finalize (w.a.in.p, given.c_str (), &ar); });
                c.log ("finalize %s: %s", given.c_str (), sname (st));
                if (st != DISIR_STATUS_OK || ar) { c.violation ("finalize-export", "finalizing the archive to %s returned %s: %s", quote (given).c_str (), sname (st), w.a.in.error ().c_str ()); break; }
                c.count ("archives");
                c.count ("entries_archived", (long) now.have.size ());
                if (from && now.have.size () > had) c.count ("extended");
                now.path = path;
                for (auto it = archives.begin (); it != archives.end ();)
                {
                    // an extended archive written elsewhere replaces the one it came from, or leaves it as it was
                    struct stat sb;
                    if (it->path == path || (from && it->path == from_path && stat (from_path.c_str (), &sb) != 0)) it = archives.erase (it);
                    else ++it;
                }
                archives.push_back (now);
                std::set<int> backends;
                for (auto& h : now.have) backends.insert (w.a.find (h.second.group)->kind);
                if (backends.size () > 1) c.count ("several_backends");
            }
            no_leftovers (c, "an export");
            for (auto& a : archives) if (!c.failed && r.chance (2, 3)) verify (w, a.path, a.have, "after the export");
            no_leftovers (c, "an import");
        }
        for (auto& a : archives) if (!c.failed) verify (w, a.path, a.have, "at the end");
        no_leftovers (c, "an import");
        if (c.no % 97 == 3) { std::string s; for (auto& a : archives) { s += a.path.substr (w.top.size ()) + ": "; for (auto& h : a.have) s += h.second.group + "/" + h.second.entry + "@" + h.second.x.ver.str () + " "; s += "\n"; } c.sample (s); }
    }
    if (ar) disir_archive_finalize (w.a.in.p, nullptr, &ar);
    no_leftovers (c, "the history");
    w.a.in.done (c);
    w.b.in.done (c);
    for (auto& k : w.kinds) if (k.mold) disir_mold_finished (&k.mold);
    wipe (w.top);
}
