// C31: an instance loads exactly its configured plugins or fails cleanly.
#include "store.inc"
#include <dlfcn.h>
#include <sys/wait.h>
const char *PROPERTY = "C31";
const char *RULE = "one attempt to create an instance from a library configuration; distinct by the configuration's plugins, their libraries and behaviours, and the way it is passed; non-trivial: at least one plugin configured";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"created", 1000}, {"plugins_loaded", 2500}, {"refused", 1500}, {"unloadable", 300}, {"no_symbol", 200}, {"register_refused", 300}, {"incomplete", 200}, {"failed_after_others", 500}, {"bad_files", 200}, {"from_file", 1000}, {"from_object", 800}, {"by_default", 100},
    {"finished", 3000}, {"several_instances", 500}, {"same_library_twice", 300}, {"listed", 1000}, {"written_back", 300}, {"lost_writes", 60}};
long driver_directed () { return 0; }

static std::string lib_dir, src_dir;
static const char *LIBS[] = {"one", "two", "three", "nosymbol", "unresolved"};
struct Event { std::string what, lib, cb, mb; bool hascb, hasmb; void *storage; struct disir_instance *in; };
static std::vector<Event> events;
static std::map<std::string, enum disir_status> refuse;         // by configuration base: what registering returns
static std::map<std::string, int> loaded;
extern "C" __attribute__ ((visibility ("default"))) int plug_event (const char *what, const char *lib, const char *cb, const char *mb, void *storage, struct disir_instance *in)
{
    std::string w = what;
    if (w == "load") loaded[lib]++;
    if (w == "unload") loaded[lib]--;
    if (w == "finish-status") return events.size () % 3 ? DISIR_STATUS_OK : DISIR_STATUS_INTERNAL_ERROR;
    events.push_back ({w, lib, cb ? cb : "", mb ? mb : "", cb != nullptr, mb != nullptr, storage, in});
    if (w == "register")
    {
        if (events.size () % 4 == 0) disir_error_set (in, "registering %s", lib);
        auto it = refuse.find (cb ? cb : "");
        return it == refuse.end () ? DISIR_STATUS_OK : it->second;
    }
    return 0;
}
static void compile (const std::string& name, const std::string& defs)
{
    auto cmd = "gcc -w -shared -fPIC -O1 -I/repo/include " + defs + " -o '" + lib_dir + "/" + name + ".so' '" + src_dir + "/plug_so.c'";
    if (system (cmd.c_str ())) { fprintf (stderr, "cannot build a plugin: %s\n", cmd.c_str ()); exit (3); }
}
void driver_setup ()
{
    char exe[4096];
    ssize_t n = readlink ("/proc/self/exe", exe, sizeof exe - 1);
    exe[n < 0 ? 0 : n] = 0;
    src_dir = std::string (exe);
    for (int k = 0; k < 3; k++) src_dir.resize (src_dir.rfind ('/'));
    src_dir += "/harness";
    lib_dir = scratch_dir () + "/lib s";
    mkdirs (lib_dir);
    for (auto *l : {"one", "two", "three"}) compile (l, strf ("-DLIBNAME='\"%s\"'", l));
    compile ("nosymbol", "-DLIBNAME='\"nosymbol\"' -DNOSYMBOL");
    compile ("unresolved", "-DLIBNAME='\"unresolved\"' -DMISSING");
    std::string so;
    slurp (lib_dir + "/one.so", so);
    spill (lib_dir + "/cut.so", so.substr (0, 40)          /* longer, the system's loader itself dies of it */);
    spill (lib_dir + "/empty.so", "");
    spill (lib_dir + "/text.so", "this is no shared library\n");
    mkdirs (lib_dir + "/dir.so");
    for (auto *l : LIBS) loaded[l] = 0;
    symlink ("one.so", (lib_dir + "/link.so").c_str ());
}
struct Plug { std::string file, lib, group, io, cb, mb; bool has[5]; };      // has: file, group, io, cb, mb given
static std::string esc (const std::string& s)
{
    std::string o = "\"";
    for (char ch : s) { if (ch == '"' || ch == '\\') o += '\\'; if (ch == '\n') o += "\\n"; else if (ch == '\t') o += "\\t"; else o += ch; }
    return o + "\"";
}
static std::string toml_of (const std::vector<Plug>& ps)
{
    std::string s = "\"@DISIR_CONFIG_VERSION\" = \"1.0\"\n";
    for (auto& p : ps)
    {
        s += "[[plugin]]\n";
        if (p.has[1]) s += "group_id = " + esc (p.group) + "\n";
        if (p.has[2]) s += "io_id = " + esc (p.io) + "\n";
        if (p.has[3]) s += "config_base_id = " + esc (p.cb) + "\n";
        if (p.has[4]) s += "mold_base_id = " + esc (p.mb) + "\n";
        if (p.has[0]) s += "plugin_filepath = " + esc (p.file) + "\n";
    }
    return s;
}
static std::string word (Rng& r)
{
    static const char *bit[] = {"a", "b", "group", " ", "/", "%s", "\"", "\\", "\xc3\xa5", "x", "_", ".", "'", "#", "[", "]"};
    std::string s;
    for (auto n = r.range (1, r.chance (1, 20) ? 400 : 5); n > 0; n--) s += bit[r.below (16)];
    return s;
}
struct Live { struct disir_instance *p; std::vector<Plug> plugs; std::vector<void *> storage; };
static int n_base;
static void check_events (Case& c, const std::vector<Plug>& ps, size_t upto, size_t from, std::vector<void *>& storage, struct disir_instance **in, const char *what)
{
    // the first upto plugins were asked to register, in order, each with its own paths; one more if it refused
    size_t k = 0;
    for (size_t n = from; n < events.size (); n++)
    {
        auto& e = events[n];
        if (e.what != "register") continue;
        if (k >= upto) { c.violation ("register:surplus", "%s: plugin %s was registered beyond the %zu expected", what, e.lib.c_str (), upto); return; }
        auto& p = ps[k++];
        if (e.lib != p.lib) c.violation ("register:order", "%s: plugin number %zu was registered from library %s instead of %s", what, k, e.lib.c_str (), p.lib.c_str ());
        if (e.hascb != p.has[3] || e.cb != p.cb) c.violation ("register:config-path", "%s: plugin number %zu got config path %s instead of %s", what, k, quote (e.cb).c_str (), p.has[3] ? quote (p.cb).c_str () : "none");
        if (e.hasmb != p.has[4] || e.mb != p.mb) c.violation ("register:mold-path", "%s: plugin number %zu got mold path %s instead of %s", what, k, quote (e.mb).c_str (), p.has[4] ? quote (p.mb).c_str () : "none");
        if (*in && *in != e.in) c.violation ("register:instance", "%s: plugins were given different instances", what);
        *in = e.in;
        storage.push_back (e.storage);
    }
    if (k < upto) c.violation ("register:missing", "%s: only %zu of %zu plugins were registered", what, k, upto);
}
static void check_finish (Case& c, size_t from, std::vector<void *> storage, const char *what)
{
    for (size_t n = from; n < events.size (); n++)
    {
        auto& e = events[n];
        if (e.what == "badname") c.violation ("identity", "%s: library %s finds its plugin named %s", what, e.lib.c_str (), quote (e.cb).c_str ());
        if (e.what != "finish") continue;
        auto it = std::find (storage.begin (), storage.end (), e.storage);
        if (it == storage.end ()) c.violation ("finish:twice", "%s: the finish step of library %s ran for a plugin that is not (or no longer) registered", what, e.lib.c_str ());
        else { storage.erase (it); c.count ("finished"); }
    }
    if (!storage.empty ()) c.violation ("finish:missing", "%s: the finish step of %zu plugins did not run", what, storage.size ());
}
static void check_loaded (Case& c, const std::vector<Live>& live, const char *what)
{
    std::set<std::string> want;
    for (auto& l : live) for (auto& p : l.plugs) want.insert (p.lib);
    for (auto& x : loaded)
    {
        if (x.second && !want.count (x.first)) c.violation ("loaded:left", "%s: library %s stays loaded", what, x.first.c_str ());
        if (!x.second && want.count (x.first)) c.violation ("loaded:gone", "%s: library %s is unloaded while in use", what, x.first.c_str ());
        if (x.second && !want.count (x.first)) x.second = 0;
    }
}
static void use (Case& c, Live& l)
{
    struct disir_plugin *q = nullptr;
    auto st = disir_plugin_registered (l.p, &q);
    c.count ("listed");
    std::string got, want;
    if (st != DISIR_STATUS_OK) c.violation ("registered:status", "listing the plugins returned %s", sname (st));
    while (q) { auto *n = q->next; got += (q->pl_group_id ? quote (q->pl_group_id) : "NULL") + " "; disir_plugin_finished (&q); q = n; }
    for (auto& p : l.plugs) want += quote (p.group) + " ";
    if (got != want) c.violation ("registered:groups", "the registered plugins are in groups %s instead of %s", got.c_str (), want.c_str ());
    std::set<std::string> groups;
    for (auto& p : l.plugs) groups.insert (p.group);
    for (auto& g : groups)
    {
        size_t from = events.size ();
        struct disir_entry *e = nullptr;
        st = disir_config_entries (l.p, g.c_str (), &e);
        if (st != DISIR_STATUS_OK) c.violation ("use:status", "listing group %s returned %s", quote (g).c_str (), sname (st));
        size_t k = 0;
        for (size_t n = from; n < events.size (); n++)
        {
            auto& x = events[n];
            if (x.what == "badname") c.violation ("identity", "library %s finds its plugin named %s", x.lib.c_str (), quote (x.cb).c_str ());
            if (x.what != "entries") continue;
            while (k < l.plugs.size () && l.plugs[k].group != g) k++;
            if (k == l.plugs.size ()) { c.violation ("use:surplus", "listing group %s asked too many plugins", quote (g).c_str ()); break; }
            if (x.lib != l.plugs[k].lib || x.cb != l.plugs[k].cb || x.mb != l.plugs[k].mb || x.hascb != l.plugs[k].has[3] || x.hasmb != l.plugs[k].has[4] || x.storage != l.storage[k] || x.in != l.p)
                c.violation ("use:identity", "listing group %s asked %s at %s, %s where %s at %s, %s was configured", quote (g).c_str (), x.lib.c_str (), quote (x.cb).c_str (), quote (x.mb).c_str (), l.plugs[k].lib.c_str (), quote (l.plugs[k].cb).c_str (), quote (l.plugs[k].mb).c_str ());
            k++;
        }
        while (k < l.plugs.size () && l.plugs[k].group != g) k++;
        if (k != l.plugs.size ()) c.violation ("use:missing", "listing group %s asked too few plugins", quote (g).c_str ());
    }
}
static void destroy (Case& c, std::vector<Live>& live, size_t at)
{
    Live l = live[at];
    live.erase (live.begin () + (long) at);
    size_t from = events.size ();
    c.log ("destroy");
    auto st = disir_instance_destroy (&l.p);
    if (st != DISIR_STATUS_OK || l.p) c.violation ("destroy", "destroying an instance returned %s", sname (st));
    check_finish (c, from, l.storage, "destroying an instance");
    check_loaded (c, live, "destroying an instance");
}
// a mold that lets the parts of a plugin be absent
static struct disir_mold *loose (Case& c)
{
    MMold mm;
    mm.ver = Ver {1, 0};
    MEl s; s.section = true; s.name = "plugin";
    MRes q; q.type = DISIR_RESTRICTION_INC_ENTRY_MAX; q.intro = Ver {1, 0}; q.hi = 0; s.res.push_back (q);
    q.type = DISIR_RESTRICTION_INC_ENTRY_MIN; q.hi = q.lo = 0; s.res.push_back (q);
    for (auto *n : {"group_id", "io_id", "config_base_id", "mold_base_id", "plugin_filepath"})
    {
        MEl k; k.name = n; k.vtype = DISIR_VALUE_TYPE_STRING;
        MRes z; z.type = DISIR_RESTRICTION_INC_ENTRY_MIN; z.intro = Ver {1, 0}; z.lo = z.hi = 0; k.res.push_back (z);
        MDef d; d.intro = Ver {1, 0}; d.v = Val::S ("x"); k.defs.push_back (d);
        s.kids.push_back (k);
    }
    mm.kids.push_back (s);
    return build_mold (c, mm);
}
void driver_case (Case& c)
{
    Rng& r = c.r;
    events.clear ();
    refuse.clear ();
    n_base = 0;
    std::string base = scratch_dir () + "/c";
    wipe (base);
    mkdirs (base);
    std::vector<Live> live;
    struct disir_mold *mold = nullptr, *slack = loose (c);
    if (!EXPECT_OK (c, disir_libdisir_mold (&mold)) || !slack) return;
    Inst helper;
    helper.make (c);
    int rounds = (int) r.range (2, 6);
    for (int round = 0; round < rounds && !c.failed; round++)
    {
        if (!live.empty () && r.chance (1, 3)) { destroy (c, live, r.below (live.size ())); if (c.failed) break; }
        // a list of plugins, most of them in order
        std::vector<Plug> ps;
        bool faulty = r.chance (3, 5);
        int n = (int) r.range (1, 5) /* none at all is fewer than its mold allows */, bad = faulty && n ? (int) r.below (n) : -1;
        std::string way = "good";
        for (int k = 0; k < n; k++)
        {
            Plug p;
            for (auto& h : p.has) h = true;
            p.lib = LIBS[r.below (3)];
            p.file = lib_dir + "/" + p.lib + ".so";
            if (r.chance (1, 10)) { p.lib = "one"; p.file = lib_dir + "/link.so"; }
            p.group = r.chance (1, 2) ? "g" : word (r);
            p.io = r.chance (1, 3) ? "io" : word (r);
            p.cb = strf ("/c%d/", n_base++) + (r.chance (1, 2) ? "" : word (r));
            p.mb = strf ("/m%d/", n_base++) + (r.chance (1, 2) ? "" : word (r));
            ps.push_back (p);
        }
        enum disir_status expect = DISIR_STATUS_OK;
        size_t asked = (size_t) n, kept = (size_t) n;
        bool any_failure = false;        // some status but OK
        bool incomplete = false;
        if (bad >= 0)
        {
            auto& p = ps[(size_t) bad];
            asked = kept = (size_t) bad;
            switch (r.below (4))
            {
            case 0:
            {
                static const char *files[] = {"absent.so", "cut.so", "empty.so", "text.so", "dir.so", "unresolved.so", "one.so/x", "../../one.so"};
                p.file = lib_dir + "/" + files[r.below (8)];
                if (r.chance (1, 8)) p.file = "no_such_library_anywhere.so";
                if (r.chance (1, 10)) p.file += std::string (r.chance (1, 2) ? 300 : 6000, 'x');
                expect = DISIR_STATUS_LOAD_ERROR; way = "unloadable";
                break;
            }
            case 1:
                p.file = r.chance (1, 3) ? "libm.so.6" : lib_dir + "/nosymbol.so";
                expect = DISIR_STATUS_PLUGIN_ERROR; way = "no_symbol";
                break;
            case 2:
                refuse[p.cb] = r.pick ({DISIR_STATUS_NO_MEMORY, DISIR_STATUS_NOT_EXIST, DISIR_STATUS_EXISTS, DISIR_STATUS_INTERNAL_ERROR, DISIR_STATUS_PLUGIN_ERROR, DISIR_STATUS_EXHAUSTED, DISIR_STATUS_LOAD_ERROR});
                asked++;
                expect = DISIR_STATUS_PLUGIN_ERROR; way = "register_refused";
                break;
            default:
            {
                auto k = r.below (3);
                if (r.chance (1, 2)) { p.has[k] = false; incomplete = true; }
                else (k == 0 ? p.file : k == 1 ? p.group : p.io) = "";
                expect = DISIR_STATUS_CONFIG_INVALID; way = "incomplete";
            }
            }
            c.count (way.c_str ());
            if (bad > 0) c.count ("failed_after_others");
        }
        else if (n && r.chance (1, 4)) { auto& p = ps[r.below ((uint64_t) n)]; auto k = 3 + r.below (2); p.has[k] = false; (k == 3 ? p.cb : p.mb) = ""; incomplete = true; }
        std::string text = toml_of (ps), file = base + strf ("/f%d.toml", round);
        enum disir_status st;
        struct disir_instance *in = (struct disir_instance *) 0x10, *seen = nullptr;
        size_t from = events.size ();
        for (size_t k = 0; k < ps.size (); k++) for (size_t j = 0; j < k; j++) if (ps[j].lib == ps[k].lib && (bad < 0 || (int) k < bad)) { c.count ("same_library_twice"); k = ps.size () - 1; break; }
        if (!live.empty ()) c.count ("several_instances");
        int form = (int) r.below (8);
        c.log ("%s, %d plugins, failing at %d, form %d:\n%s", way.c_str (), n, bad, form, text.c_str ());
        const char *what = "creating an instance";
        if (form == 0 && r.chance (1, 3))
        {
            ps.clear (); asked = kept = 0; expect = DISIR_STATUS_OK; bad = -1;
            c.count ("by_default");
            st = disir_instance_create (nullptr, nullptr, &in);
        }
        else if (form <= 1)
        {
            // a file that is no library configuration
            int how = (int) r.below (7);
            any_failure = true;
            asked = kept = 0;
            if (how == 0) file = base + "/absent.toml", expect = DISIR_STATUS_INVALID_ARGUMENT, any_failure = false;
            else if (how == 1) file = base;
            else if (how == 2) spill (file, text + "\nplugin = \n");
            else if (how == 3) spill (file, text + "\n[[plugin]]\nunheard_of = \"x\"\n");
            else if (how == 4) spill (file, text + "\n[unheard_of]\nx = 1\n");
            else if (how == 5) spill (file, text.substr (text.find ('\n') + 1) + "\n[[plugin]]\ngroup_id = 5\nio_id = 1\nconfig_base_id = 1\nmold_base_id = 1\nplugin_filepath = 1\n");
            else spill (file, std::string ("\0\xff\xfe[[", 5) + text);
            c.count ("bad_files");
            c.log ("bad file %d", how);
            st = disir_instance_create (file.c_str (), nullptr, &in);
        }
        else if (form <= 4)
        {
            spill (file, text);
            c.count ("from_file");
            st = disir_instance_create (file.c_str (), nullptr, &in);
            // the mold of the library demands every part of a plugin
            if (incomplete) { any_failure = true; asked = kept = 0; }
        }
        else
        {
            struct disir_config *cfg = nullptr;
            spill (file, text);
            auto s2 = disir_libdisir_config_from_disk (helper.p, file.c_str (), incomplete || r.chance (1, 3) ? slack : mold, &cfg);
            if (s2 != DISIR_STATUS_OK || !cfg) { c.violation ("from-disk", "reading a library configuration returned %s:\n%s", sname (s2), text.c_str ()); break; }
            if (!incomplete && r.chance (1, 4))
            {
                // written to disk, it makes the same instance
                std::string again = base + strf ("/w%d.toml", round);
                s2 = disir_libdisir_config_to_disk (helper.p, cfg, again.c_str ());
                disir_config_finished (&cfg);
                if (s2 != DISIR_STATUS_OK) { c.violation ("to-disk", "writing a library configuration returned %s", sname (s2)); break; }
                c.count ("written_back");
                st = disir_instance_create (again.c_str (), nullptr, &in);
            }
            else
            {
                if (r.chance (1, 6))
                {
                    s2 = disir_libdisir_config_to_disk (helper.p, cfg, "/dev/full");
                    c.count ("lost_writes");
                    if (s2 == DISIR_STATUS_OK) c.violation ("to-disk:lost", "writing a library configuration to a full device returned OK");
                }
                c.count ("from_object");
                st = disir_instance_create (r.chance (1, 5) ? "/nowhere/ignored.toml" : nullptr, cfg, &in);
                if (st != DISIR_STATUS_OK)
                {
                    // still the caller's
                    struct disir_version v;
                    auto s3 = dc_config_get_version (cfg, &v);
                    if (s3 != DISIR_STATUS_OK) c.violation ("object:lost", "after a refused creation the configuration answers %s", sname (s3));
                    disir_config_finished (&cfg);
                }
            }
        }
        if (c.no % 50 == 0) c.sample (way + ": " + text);
        if (!ps.empty ()) c.nontrivial (way + strf (" %d ", form) + text);
        std::vector<void *> storage;
        if (any_failure ? st != DISIR_STATUS_OK : st == expect) {}
        else c.violation (strf ("status:%s", sname (any_failure ? DISIR_STATUS_UNKNOWN : expect)), "creating an instance (%s, form %d, plugin %d of %d at fault) returned %s instead of %s", way.c_str (), form, bad, n, sname (st), any_failure ? "an error" : sname (expect));
        check_events (c, ps, asked, from, storage, &seen, what);
        if (storage.size () > kept) storage.resize (kept);      // the one that refused
        if (st == DISIR_STATUS_OK)
        {
            if (in == (struct disir_instance *) 0x10 || !in) { c.violation ("created:none", "creation returned OK without an instance"); break; }
            if (seen && seen != in) c.violation ("created:other", "the plugins were given another instance");
            c.count ("created");
            c.count ("plugins_loaded", n);
            ps.resize (kept);
            live.push_back ({in, ps, storage});
            check_finish (c, from, {}, what);
            use (c, live.back ());
        }
        else
        {
            c.count ("refused");
            check_finish (c, from, storage, "a refused creation");
        }
        check_loaded (c, live, what);
        for (auto& l : live) if (r.chance (1, 4)) use (c, l);
    }
    while (!live.empty ()) { if (!c.failed) use (c, live.back ()); destroy (c, live, live.size () - 1); }
    if (r.chance (1, 10))
    {
        struct disir_instance *none = nullptr;
        for (auto st : {disir_instance_create (nullptr, nullptr, nullptr), disir_instance_destroy (nullptr), disir_instance_destroy (&none), disir_plugin_registered (helper.p, nullptr)})
            if (st != DISIR_STATUS_INVALID_ARGUMENT) c.violation ("null", "a call without an instance returned %s", sname (st));
    }
    disir_mold_finished (&mold);
    disir_mold_finished (&slack);
    helper.done (c);
    wipe (base);
    std::vector<Event> ().swap (events);
    dlerror (); dlerror ();              // the system keeps its last message
    refuse.clear ();
}
