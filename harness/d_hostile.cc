// C26: a hostile archive can neither crash the importer nor write outside its sandbox.
#include "arch.inc"
#include <disir/version.h>
const char *PROPERTY = "C26";
const char *RULE = "one file offered as an archive for import or for extension: an archive of the library or a forged one with its bytes, members, names, links, index or contents altered; distinct by the file's bytes; non-trivial: the file differs from what the library wrote";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"files", 5000}, {"byte_changes", 800}, {"cut_short", 500}, {"header_changes", 800}, {"hostile_members", 1500}, {"links", 500}, {"leaving_names", 300}, {"index_breaches", 800}, {"odd_types", 150}, {"contents_changed", 300}, {"accepted", 500}, {"exact", 300}, {"refused", 2000}, {"finalized", 300}, {"for_extension", 800}};
long driver_directed () { return 0; }
void driver_setup () { setup_box (); }

struct Entry { std::string group, id, text; int backend; MConfig x; };
struct World
{
    Case& c; Rng& r; GenOpt o; std::string top; std::vector<Kind> kinds; Site s;
    std::vector<Entry> entries;
    explicit World (Case& x) : c (x), r (x.r) {}
};
static const char *BACK[] = {"JSON", "TOML"};
// the index of a forged archive, in pieces that can be altered one by one
struct Index
{
    std::string org = "disir_org_version = \"0/1-draft\"\n", impl;
    struct Back { std::string header = "[[backend]]\n", id, groups; std::string entries; bool has_file = true; };
    std::vector<Back> backs;
    std::string meta () const { std::string s = impl + org; for (auto& b : backs) s += b.header + b.id + b.groups; return s; }
};
struct Forged { Index ix; std::vector<Member> ms; std::vector<Entry> want; bool refuse = false, exact = true; };
static Forged forge (World& w)
{
    Forged f;
    f.ix.impl = strf ("implementation = \"%s\"\n", libdisir_version_string);
    for (int b = 0; b < 2; b++)
    {
        std::map<std::string, std::vector<const Entry *>> groups;
        for (auto& e : w.entries) if (e.backend == b) groups[e.group].push_back (&e);
        if (groups.empty ()) continue;
        Index::Back back;
        back.id = strf ("id = \"%s\"\n", BACK[b]);
        back.groups = "groups = [";
        for (auto& g : groups)
        {
            back.groups += (back.groups.back () == '[' ? "" : ", ") + toml_string (g.first);
            back.entries += "[" + toml_string (g.first) + "]\n";
            for (auto *e : g.second)
            {
                back.entries += toml_string (e->id) + " = \"" + e->x.ver.str () + "\"\n";
                Member m;
                m.name = std::string (BACK[b]) + "/" + g.first + "/" + e->id;
                m.data = e->text;
                f.ms.push_back (m);
                f.want.push_back (*e);
            }
        }
        back.groups += "]\n";
        f.ix.backs.push_back (back);
    }
    return f;
}
static void add_index (Forged& f)
{
    Member m;
    m.name = "metadata.toml";
    m.data = f.ix.meta ();
    f.ms.push_back (m);
    for (auto& b : f.ix.backs)
    {
        if (!b.has_file) continue;
        size_t q = b.id.find ('"');
        m.name = (q == std::string::npos ? std::string ("JSON") : b.id.substr (q + 1, b.id.rfind ('"') - q - 1)) + "/entries.toml";
        m.data = b.entries;
        f.ms.push_back (m);
    }
}
static std::string garble (Rng& r, std::string s)
{
    int n = (int) r.range (1, 4);
    for (int i = 0; i < n && !s.empty (); i++)
        switch (r.below (6))
        {
        case 0: s[r.below (s.size ())] = (char) r.below (256); break;
        case 1: s.erase (r.below (s.size ()), r.range (1, 8)); break;
        case 2: s.insert (r.below (s.size () + 1), r.pick ({std::string ("["), std::string ("]"), std::string ("\""), std::string ("="), std::string ("\n"), std::string ("[["), std::string ("\"\"\""), std::string ("'''"), std::string ("{"), std::string ("1979-05-27T07:32:00Z"), std::string ("\\u0000"), std::string ("\\"), std::string (1, '\0'), std::string ("."), std::string ("[a]\n")})); break;
        case 3: s.resize (r.below (s.size () + 1)); break;
        case 4: { size_t a = r.below (s.size ()), l = r.range (1, 40); s.insert (r.below (s.size () + 1), s.substr (a, l)); break; }
        default: for (auto& ch : s) if (r.chance (1, 40)) ch ^= (char) (1 << r.below (8));
        }
    return s;
}
// breaches of the index that a reader has to notice
static void breach (World& w, Forged& f)
{
    Rng& r = w.r;
    auto& b = f.ix.backs[r.below (f.ix.backs.size ())];
    f.refuse = true;
    static const char *NOTSTRING[] = {"1", "true", "1.5", "[]", "[\"a\"]", "1979-05-27T07:32:00Z"};
    switch (r.below (18))
    {
    case 0: f.ix.org = ""; break;
    case 1: f.ix.org = strf ("disir_org_version = %s\n", NOTSTRING[r.below (6)]); break;
    case 2: f.ix.org = "disir_org_version = \"0/1\"\n"; break;
    case 3: f.ix.impl = ""; break;
    case 4: f.ix.impl = strf ("implementation = %s\n", NOTSTRING[r.below (6)]); break;
    case 5: f.ix.impl = "implementation = \"0.0.0\"\n"; break;
    case 6: b.id = ""; b.has_file = true; break;
    case 7: b.id = strf ("id = %s\n", NOTSTRING[r.below (6)]); break;
    case 8: b.groups = ""; break;
    case 9: b.groups = strf ("groups = %s\n", r.pick ({"1", "\"x\"", "true", "1.5", "[]"})); break;
    case 10: b.groups = strf ("groups = [%s]\n", r.pick ({"1, 2", "true", "[\"a\"]", "1.5, 2.5", "1979-05-27T07:32:00Z"})); break;
    case 11: b.has_file = false; break;
    case 12: { auto at = b.groups.rfind (']'); b.groups.insert (at, ", \"nosuchgroup\""); break; }
    case 13: b.entries = "\"" + (f.want.empty () ? std::string ("x") : f.want[0].group) + "\" = 1\n"; b.entries += "grp1 = 1\n"; break;
    case 14: b.entries += "absent_entry = \"1.0\"\n"; break;
    case 15: { auto at = b.entries.find (" = \""); auto end = b.entries.find ('\n', at); b.entries.replace (at + 3, end - at - 3, NOTSTRING[r.below (6)]); break; }
    case 16: f.ix.backs.clear (); f.ix.org += r.pick ({std::string (""), std::string ("backend = 1\n"), std::string ("backend = \"x\"\n"), std::string ("[backend]\nid = \"JSON\"\n"), std::string ("backend = [1, 2]\n"), std::string ("backend = [\"JSON\"]\n"), std::string ("backend = [[1]]\n")}); break;
    default: if (!f.ms.empty ()) f.ms.erase (f.ms.begin () + r.below (f.ms.size ())); else f.ix.org = ""; break;       // a member short
    }
    w.c.count ("index_breaches");
}
static void hostile_member (World& w, Forged& f, const std::string& decoy)
{
    Rng& r = w.r;
    Member m;
    m.data = w.entries.empty () ? "x" : w.entries[0].text;
    std::string where = r.pick ({w.top + "/out/evil", w.top + "/decoy/secret", w.top + "/s/c1/evil.json", std::string ("/tmp/evil-archive-member"), std::string ("/nonexistent-dir/evil"), std::string ("/etc/evil-archive-member")});
    std::string up;
    for (int n = (int) r.range (1, 8); n > 0; n--) up += "../";
    w.c.count ("hostile_members");
    switch (r.below (13))
    {
    case 0: m.name = where; w.c.count ("leaving_names"); f.ms.insert (f.ms.begin () + r.below (f.ms.size () + 1), m); break;
    case 1: m.name = up + where.substr (1); w.c.count ("leaving_names"); f.ms.insert (f.ms.begin () + r.below (f.ms.size () + 1), m); break;
    case 2: m.name = r.pick ({std::string ("JSON/"), std::string ("JSON/grp1/"), std::string ("a/b/"), std::string ("./")}) + up + r.pick ({std::string ("evil"), where.substr (1)}); w.c.count ("leaving_names"); f.ms.insert (f.ms.begin () + r.below (f.ms.size () + 1), m); break;
    case 3:     // a link, and a member through it
    {
        w.c.count ("links");
        Member l;
        l.type = AE_IFLNK;
        l.name = r.pick ({std::string ("JSON"), std::string ("TOML"), std::string ("JSON/grp1"), std::string ("lnk"), std::string ("."), std::string ("JSON/grp1/e")});
        l.link = r.pick ({w.top + "/out", w.top + "/decoy", up + "tmp", std::string ("/"), w.top + "/s/c1", std::string (".."), std::string ("/tmp"), std::string (".")});
        m.name = l.name + "/" + r.pick ({std::string ("evil"), std::string ("secret"), std::string ("new/evil")});
        f.ms.insert (f.ms.begin (), m);
        f.ms.insert (f.ms.begin (), l);
        break;
    }
    case 4:     // an entry that is a link to somebody's file
        w.c.count ("links");
        if (f.ms.empty ()) break;
        { auto& t = f.ms[r.below (f.ms.size ())]; t.link = r.chance (2, 3) ? decoy : r.pick ({std::string ("metadata.toml"), std::string ("/etc/passwd"), up + decoy.substr (1), std::string ("loop")}); t.hard = r.chance (1, 2); t.type = t.hard ? AE_IFREG : AE_IFLNK; }
        break;
    case 5:     // another kind of file in its place
        w.c.count ("odd_types");
        if (f.ms.empty ()) break;
        { auto& t = f.ms[r.below (f.ms.size ())]; t.type = r.pick ({(int) AE_IFDIR, (int) AE_IFIFO, (int) AE_IFCHR, (int) AE_IFBLK}); }
        break;
    case 6:     // permissions
        for (auto& t : f.ms) if (r.chance (1, 2)) t.mode = r.pick ({0, 0200, 0444, 04755, 06777, 01777, 0111});
        if (r.chance (1, 2)) { Member d; d.name = r.pick ({std::string ("JSON"), std::string ("JSON/grp1"), std::string ("dir"), std::string ("dir/sub")}); d.type = AE_IFDIR; d.mode = r.pick ({0, 0111, 0444, 0500, 02000}); f.ms.insert (r.chance (1, 2) ? f.ms.begin () : f.ms.end (), d); if (r.chance (1, 2)) { d.name += "/inner"; f.ms.push_back (d); } }
        break;
    case 7:     // long names
    {
        size_t n = r.pick ({90, 100, 101, 155, 255, 256, 257, 1000, 4000, 4095, 4096, 4097, 5000, 20000});
        while (m.name.size () < n) m.name += m.name.size () % 50 == 49 && r.chance (3, 4) ? '/' : 'n';
        f.ms.insert (f.ms.begin () + r.below (f.ms.size () + 1), m);
        break;
    }
    case 8:     // a name twice
        if (f.ms.empty ()) break;
        { auto t = f.ms[r.below (f.ms.size ())]; t.data = garble (r, t.data); f.ms.insert (r.chance (1, 2) ? f.ms.begin () : f.ms.end (), t); }
        break;
    case 9:     // odd names
        m.name = r.pick ({std::string (""), std::string ("."), std::string (".."), std::string ("/"), std::string ("//"), std::string ("a//b"), std::string ("./metadata.toml"), std::string ("metadata.toml/"), std::string ("metadata.toml/x"), std::string ("JSON/./entries.toml"), std::string ("JSON"), std::string ("JSON/grp1"), std::string ("\xff\xfe"), std::string ("a\nb"), std::string ("xmetadata.toml"), std::string ("JSON/x-entries.toml"), std::string ("%s%n%s%n")});
        f.ms.insert (f.ms.begin () + r.below (f.ms.size () + 1), m);
        break;
    case 10:    // a file in place of a directory, and the other way round
        m.name = r.pick ({std::string ("JSON"), std::string ("TOML"), std::string ("JSON/grp1"), std::string ("metadata.toml/deeper")});
        f.ms.insert (f.ms.begin (), m);
        break;
    case 11:    // the index names hostile entries
        if (f.ix.backs.empty () || f.ix.backs[0].groups.empty ()) break;
        {
            auto& b = f.ix.backs[r.below (f.ix.backs.size ())];
            std::string id = r.pick ({std::string ("../../x"), std::string ("/etc/passwd"), decoy, std::string ("../../../") + decoy, std::string (""), std::string ("."), std::string ("a/../../../evil"), std::string ("e.json"), std::string (3000, 'e'), std::string ("%s%s%n"), std::string ("\\u0000"), std::string ("dir/"), std::string ("__namespace")});
            b.entries += toml_string (id) + " = \"" + r.pick ({std::string ("1.0"), std::string ("x"), std::string (""), std::string (2000, '9')}) + "\"\n";
            if (r.chance (1, 2)) { size_t q = b.entries.find ('"'); m.name = (b.id.find ("JSON") != std::string::npos ? "JSON/" : "TOML/") + b.entries.substr (q + 1, b.entries.find ('"', q + 1) - q - 1) + "/" + id; f.ms.push_back (m); }
        }
        break;
    default:    // the index names hostile groups and backends
        if (f.ix.backs.empty () || f.ix.backs[0].groups.empty ()) break;
        {
            auto& b = f.ix.backs[r.below (f.ix.backs.size ())];
            std::string g = r.pick ({std::string (".."), std::string ("../.."), std::string ("/"), std::string (""), std::string (1500, 'g'), std::string ("%s%n"), std::string ("grp1/../grp1"), std::string ("."), std::string ("a.b.c"), std::string ("[x]")});
            if (r.chance (1, 2)) { b.groups.insert (b.groups.rfind (']'), ", " + toml_string (g)); b.entries += "[" + toml_string (g) + "]\ne = \"1.0\"\n"; m.name = (b.id.find ("JSON") != std::string::npos ? "JSON/" : "TOML/") + g + "/e"; if (r.chance (1, 2)) f.ms.push_back (m); }
            else { b.id = "id = " + toml_string (g) + "\n"; }
        }
    }
    f.exact = false;
}
// what is in the container, as another reader sees it
static bool must_refuse (const std::string& bytes)
{
    std::vector<Member> ms;
    if (!unpack (bytes, ms)) return true;
    bool index = false;
    for (auto& m : ms)
    {
        if (m.type == AE_IFDIR) continue;
        if (m.type != AE_IFREG || m.hard) return true;
        if (m.name.empty () || m.name[0] == '/' || ("/" + m.name + "/").find ("/../") != std::string::npos) return true;
        if (m.name == "metadata.toml") index = true;
    }
    return !index;
}
static void fix_header (std::string& tar, size_t at)
{
    unsigned sum = 0;
    for (int i = 0; i < 8; i++) tar[at + 148 + i] = ' ';
    for (int i = 0; i < 512; i++) sum += (unsigned char) tar[at + i];
    snprintf (&tar[at + 148], 8, "%06o", sum);
}
static void alter_headers (World& w, std::string& tar)
{
    Rng& r = w.r;
    std::vector<size_t> heads;
    for (size_t at = 0; at + 512 <= tar.size ();)
    {
        if (tar[at] == 0) break;
        heads.push_back (at);
        long size = strtol (tar.substr (at + 124, 11).c_str (), nullptr, 8);
        at += 512 + (size + 511) / 512 * 512;
    }
    if (heads.empty ()) return;
    for (int n = (int) r.range (1, 3); n > 0; n--)
    {
        size_t at = heads[r.below (heads.size ())];
        switch (r.below (8))
        {
        case 0: tar[at + 156] = r.pick ({'0', '1', '2', '3', '4', '5', '6', '7', 'L', 'K', 'x', 'g', 'S', 'D', 'M', 'N', 'V', 'X', 'A', '\0', 'Z'}); break;
        case 1: snprintf (&tar[at + 124], 12, "%011lo", (unsigned long) r.pick ({0L, 1L, 511L, 512L, 100000L, 8589934591L, (long) r.below (4000)})); break;
        case 2: memset (&tar[at + 124], 0xff, 12); tar[at + 124] = r.pick ({(char) 0x80, (char) 0xff, (char) 0xc0}); break;
        case 3: tar[at + r.below (100)] = (char) r.below (256); break;
        case 4: snprintf (&tar[at + 157], 100, "%s", r.pick ({std::string ("/etc/passwd"), w.top.substr (0, 90), std::string ("../../../../tmp"), std::string ("metadata.toml")}).c_str ()); tar[at + 156] = r.chance (1, 2) ? '1' : '2'; w.c.count ("links"); break;
        case 5: snprintf (&tar[at + 345], 155, "%s", r.pick ({"/tmp", "..", "../..", "/", "a/b/c"})); break;
        case 6: tar[at + r.below (512)] = (char) r.below (256); break;
        default: snprintf (&tar[at + 100], 8, "%07o", (unsigned) r.below (07777777)); break;
        }
        if (r.chance (9, 10)) fix_header (tar, at);
    }
}
static void offer (World& w, const std::string& bytes, const Forged *f, const std::string& what)
{
    Case& c = w.c;
    Rng& r = w.r;
    std::string path = w.top + "/out/offered.disir";
    spill (path, bytes);
    c.count ("files");
    c.nontrivial (bytes);
    Snap was, now;
    snapshot (w.top, "", was);
    B.watched = w.top + "/decoy";
    int fds = open_fds ();
    bool extend = r.chance (1, 4);
    struct disir_import *im = nullptr;
    struct disir_archive *ar = nullptr;
    int n = -7;
    enum disir_status st;
    c.log ("%s %s of %zu bytes", extend ? "extend" : "import", what.c_str (), bytes.size ());
    disir_error_clear (w.s.in.p);
    if (extend)
    {
        st = boxed ([&] { return disir_archive_export_begin (w.s.in.p, path.c_str (), &ar); });
        c.count ("for_extension");
        if ((st == DISIR_STATUS_OK) != (ar != nullptr)) c.violation ("extend:handle", "opening %s for extension returned %s with%s a handle", what.c_str (), sname (st), ar ? "" : "out");
        if (ar) boxed ([&] { return disir_archive_finalize (w.s.in.p, nullptr, &ar); });
        if (ar) c.violation ("extend:discard", "the archive could not be discarded");
    }
    else
    {
        st = boxed ([&] { return disir_archive_import (w.s.in.p, path.c_str (), &im, &n); });
        if ((st == DISIR_STATUS_OK) != (im != nullptr)) c.violation ("import:handle", "importing %s returned %s with%s a handle", what.c_str (), sname (st), im ? "" : "out");
        if (im)
        {
            std::vector<Listed> l;
            listing (c, im, n, l);
            std::map<std::string, MConfig> force;
            if (f)
            {
                // what it lists is what is in it
                std::map<std::string, const Entry *> have;
                for (auto& e : f->want) have[key_of (e.group, e.id)] = &e;
                for (auto& e : l)
                {
                    auto it = have.find (key_of (e.group, e.id));
                    if (it == have.end ()) { if (f->exact) c.violation ("list:surplus", "%s lists %s of %s", what.c_str (), quote (e.id).c_str (), quote (e.group).c_str ()); continue; }
                    if (f->exact && e.version != it->second->x.ver.str ()) c.violation ("list:version", "%s lists %s with version %s instead of %s", what.c_str (), quote (e.id).c_str (), e.version.c_str (), it->second->x.ver.str ().c_str ());
                    if (f->exact) force[it->first] = it->second->x;
                }
                if (f->exact && l.size () != have.size ()) c.violation ("list:missing", "%s lists %zu of %zu entries", what.c_str (), l.size (), have.size ());
                if (f->exact) c.count ("exact");
            }
            bool go = r.chance (1, 2);
            std::set<std::string> taken;
            if (go)
                for (int i = 0; i < (int) l.size (); i++) if (disir_import_resolve_entry (im, i, DISIR_IMPORT_FORCE) == DISIR_STATUS_OK) taken.insert (key_of (l[i].group, l[i].id));
            auto s2 = boxed ([&] { return disir_import_finalize (w.s.in.p, go ? DISIR_IMPORT_DO : DISIR_IMPORT_DISCARD, &im, nullptr); });
            if (s2 != DISIR_STATUS_OK) c.violation ("import:finalize", "finishing the import of %s returned %s", what.c_str (), sname (s2));
            c.count ("finalized");
            if (go)
                for (auto& e : force)
                {
                    MConfig got;
                    auto g = e.first.substr (0, e.first.find ('\0')), id = e.first.substr (e.first.find ('\0') + 1);
                    if (!taken.count (e.first)) { c.violation ("exact:resolve", "%s of %s in %s could not be chosen for import", quote (id).c_str (), quote (g).c_str (), what.c_str ()); break; }
                    if (!read_back (c, w.s, g, id, got, &st) || !same (got, e.second)) { c.violation ("exact:content", "%s of %s imported from %s is not what was in it (%s)", quote (id).c_str (), quote (g).c_str (), what.c_str (), sname (st)); break; }
                }
            st = DISIR_STATUS_OK;
        }
    }
    c.count (st == DISIR_STATUS_OK ? "accepted" : "refused");
    if (f && f->refuse && st == DISIR_STATUS_OK)
    {
        std::string ms;
        for (auto& m : f->ms) ms += strf (" %s:%o%s%s", quote (m.name).c_str (), m.type, m.link.empty () ? "" : "->", m.link.c_str ());
        c.violation ("accepted", "%s was accepted:%s", what.c_str (), ms.c_str ());
    }
    if (f && !f->refuse && f->exact && st != DISIR_STATUS_OK) c.violation ("refused", "%s was refused with %s: %s", what.c_str (), sname (st), w.s.in.error ().c_str ());
    for (auto& h : B.watched_hits) { c.violation ("read-through", "%s made the library open %s", what.c_str (), h.c_str ()); break; }
    B.watched.clear ();
    std::vector<std::string> ().swap (B.watched_hits);
    no_leftovers (c, what.c_str ());
    if (open_fds () != fds) c.violation ("descriptors", "%s left %d descriptors open", what.c_str (), open_fds () - fds);
    // the installation changes only where entries of its groups are written
    snapshot (w.top, "", now);
    auto mine = [&] (const std::string& p) { return p.compare (0, 3, "s/c") == 0; };
    for (auto& e : was) { auto it = now.find (e.first); if ((it == now.end () || it->second != e.second) && !(mine (e.first) && st == DISIR_STATUS_OK && !extend)) { c.violation ("changed", "%s: %s %s", what.c_str (), quote (e.first).c_str (), it == now.end () ? "is gone" : "changed"); break; } }
    for (auto& e : now) if (!was.count (e.first) && !(mine (e.first) && st == DISIR_STATUS_OK && !extend)) { c.violation ("created", "%s: %s appeared", what.c_str (), quote (e.first).c_str ()); break; }
    if (now != was)
    {
        for (auto it = now.rbegin (); it != now.rend (); ++it) if (!was.count (it->first)) wipe (w.top + "/" + (it->first.back () == '/' ? it->first.substr (0, it->first.size () - 1) : it->first));
        for (auto& e : was) { auto it = now.find (e.first); auto p = w.top + "/" + e.first; if (it != now.end () && it->second == e.second) continue; if (e.first.back () == '/') mkdirs (p.substr (0, p.size () - 1)); else { wipe (p); spill (p, e.second); } }
    }
    if (c.no % 61 == 1) c.sample (strf ("%s of %zu bytes: %s", what.c_str (), bytes.size (), sname (st)));
}
void driver_case (Case& c)
{
    Unprivileged user;
    Rng& r = c.r;
    World w (c);
    w.o.depth = 1; w.o.width = 3; w.o.strings = (int) r.below (2);
    w.top = scratch_dir () + "/h";
    wipe (w.top);
    mkdirs (w.top + "/out"); mkdirs (w.top + "/decoy");
    w.s.dir = w.top + "/s";
    box_reset ();
    w.kinds.resize (1);
    w.kinds[0].m = gen_mold (r, w.o);
    w.kinds[0].mold = build_mold (c, w.kinds[0].m);
    w.s.groups.reserve (4);
    bool ok = w.kinds[0].mold && w.s.in.make (c);
    if (ok) { w.s.add (c, "grp1", JSON_PLUGIN); w.s.add (c, "grp2", TOML_PLUGIN); w.s.add (c, "g.3", r.chance (1, 2) ? JSON_PLUGIN : TOML_PLUGIN); ok = !c.failed; }
    struct disir_archive *ar = nullptr;
    if (ok)
    {
        for (auto& g : w.s.groups)
        {
            if (r.chance (1, 4)) { write_mold (c, w.s, g, "__namespace", w.kinds[0].mold); write_mold (c, w.s, g, "dir/__namespace", w.kinds[0].mold); }
            int n = (int) r.range (0, 3);
            for (int i = 0; i < n; i++)
            {
                auto id = i == 0 ? "e" : strf ("dir/n%d", i);
                auto x = config_for (r, w.kinds[0].m, w.o);
                if (!write_mold (c, w.s, g, id, w.kinds[0].mold) || !install (c, w.s, g, id, w.kinds[0].mold, x)) break;
                auto *cfg = build_config (c, w.kinds[0].mold, x);
                Entry e {g.name, id, "", g.kind == JSON_PLUGIN ? 0 : 1, x};
                if (cfg && text_of_config (c, g.kind, w.s.in.p, cfg, e.text)) w.entries.push_back (e);
                if (cfg) disir_config_finished (&cfg);
            }
        }
        std::string decoy = w.top + "/decoy/secret";
        spill (decoy, w.entries.empty () ? "x" : w.entries[0].text);
        // one the library writes
        std::string genuine;
        auto st = boxed ([&] { return disir_archive_export_begin (w.s.in.p, nullptr, &ar); });
        if (st == DISIR_STATUS_OK)
        {
            for (auto& g : w.s.groups) if (!g.installed.empty ()) { auto s2 = boxed ([&] { return disir_archive_append_group (w.s.in.p, ar, g.name.c_str ()); }); if (s2 != DISIR_STATUS_OK) c.violation ("export", "appending group %s returned %s", g.name.c_str (), sname (s2)); }
            std::string out = w.top + "/genuine.disir";
            boxed ([&] { return disir_archive_finalize (w.s.in.p, w.entries.empty () ? nullptr : out.c_str (), &ar); });
            slurp (out, genuine);
        }
        no_leftovers (c, "the export");
        for (int k = 0; k < 16 && !c.failed; k++)
        {
            Forged f = forge (w);
            std::string bytes, what;
            Pack how = r.pick ({XZ, XZ, XZ_PAX, XZ_GNU});
            if (f.ix.backs.empty ()) { f.ix.backs.push_back ({}); f.refuse = true; f.exact = false; }
            switch (r.below (9))
            {
            case 0:
                if (genuine.empty ()) continue;
                bytes = genuine;
                what = "an archive of the library with changed bytes";
                for (int n = (int) r.range (1, 3); n > 0; n--) bytes[r.below (bytes.size ())] ^= (char) (1 << r.below (8));
                c.count ("byte_changes");
                // checked sums guard the contents: refused, or exact
                f.refuse = false;
                { Forged g = f; bool known = true; std::vector<Member> ms; known = unpack (bytes, ms); offer (w, bytes, known ? &g : nullptr, what); }
                continue;
            case 1:
                if (genuine.empty ()) continue;
                bytes = genuine.substr (0, r.chance (1, 3) ? genuine.size () - r.below (std::min<size_t> (genuine.size (), 200)) : r.below (genuine.size ()));
                if (r.chance (1, 8)) bytes += garble (r, genuine);
                what = "an archive of the library cut short";
                c.count ("cut_short");
                { std::vector<Member> ms; bool whole = unpack (bytes, ms); f.refuse = !whole; offer (w, bytes, &f, what); }
                continue;
            case 2:
                what = "noise";
                for (int n = (int) r.below (3000); n > 0; n--) bytes += (char) r.below (256);
                if (r.chance (1, 3)) bytes = std::string ("\xfd" "7zXZ\0", 6) + bytes;
                if (r.chance (1, 6)) bytes = "";
                f.refuse = true;
                offer (w, bytes, &f, what);
                continue;
            case 3:
                add_index (f);
                bytes = pack (f.ms, PLAIN);
                alter_headers (w, bytes);
                if (r.chance (1, 4)) bytes.resize (r.below (bytes.size ()));
                what = "a container with altered headers";
                c.count ("header_changes");
                offer (w, bytes, nullptr, what);
                continue;
            case 4: case 5:
            {
                int n = (int) r.range (1, 2);
                for (int i = 0; i < n && i < 1; i++) hostile_member (w, f, decoy);
                add_index (f);
                if (r.chance (1, 3)) hostile_member (w, f, decoy);          // the index itself, too
                what = "an archive with a hostile member";
                break;
            }
            case 6:
                if (f.exact) breach (w, f);
                f.exact = false;
                add_index (f);
                what = "an archive with a broken index";
                break;
            case 7:
                add_index (f);
                { auto& m = f.ms[r.below (f.ms.size ())]; m.data = garble (r, m.data); }
                f.exact = f.refuse = false;
                what = "an archive with changed contents";
                c.count ("contents_changed");
                break;
            default:
                add_index (f);
                for (size_t i = f.ms.size (); i > 1; i--) std::swap (f.ms[i - 1], f.ms[r.below (i)]);
                what = "a well-formed archive";
            }
            bytes = pack (f.ms, how);
            if (must_refuse (bytes)) f.refuse = true;
            offer (w, bytes, &f, what);
        }
    }
    if (ar) disir_archive_finalize (w.s.in.p, nullptr, &ar);
    no_leftovers (c, "the case");
    w.s.in.done (c);
    for (auto& k : w.kinds) if (k.mold) disir_mold_finished (&k.mold);
    wipe (w.top);
}
