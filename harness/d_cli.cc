// C32: the command line tool's result tells what the library found.
//
// The tool, built with the sanitizers, runs as a process of its own over an installation; what it should do is
// done by the library in-process over a copy of that installation, and the two are compared.
#include "arch.inc"
#include "mature.inc"
#include <sys/resource.h>
#include <spawn.h>
#include <iostream>
const char *PROPERTY = "C32";
const char *RULE = "one run of the command line tool over an installation; distinct by the arguments, the answers typed and the content of the installation; non-trivial: exit status, output and the files afterwards were compared with what the library does";
std::vector<std::pair<const char *, long>> REQUIRED = {{"already_there", 17}, {"asked", 28}, {"choice_refused", 28}, {"chosen_interactively", 32}, {"committed", 39}, {"dump", 100}, {"dumped", 63}, {"effects", 110}, {"empty_archives", 6}, {"export", 430}, {"export_refused", 200}, {"exported", 170}, {"extend", 45}, {"failures", 570}, {"generate", 100}, {"generate_failed", 3}, {"generate_listed", 3}, {"generate_refused", 25}, {"generated", 22}, {"import", 260}, {"import_entries", 230}, {"import_refused", 130}, {"imported", 26}, {"imports", 125}, {"input_ended", 4}, {"inspected", 22}, {"library_config", 2}, {"list", 45}, {"listed", 95}, {"misuse", 50}, {"outputs", 470}, {"read_only", 95}, {"regenerated", 3}, {"remove", 37}, {"removed", 20}, {"runs", 1200}, {"successes", 630}, {"temporaries", 500}, {"verified_error", 42}, {"verified_invalid", 5}, {"verified_ok", 155}, {"verified_text", 24}, {"verify", 100}, {"verify_text", 49}};
long driver_directed () { return 0; }

static std::string bin_dir;
void driver_setup ()
{
    setup_box ();
    const char *b = getenv ("HARNESS_BUILD");
    if (!b) { fprintf (stderr, "HARNESS_BUILD is not set\n"); exit (3); }
    bin_dir = scratch_dir () + "/bin";
    mkdirs (bin_dir);
    static const char *files[][2] = {{"cli/disir", "disir"}, {"lib/libdisir_c.so.0", "libdisir_c.so.0"}, {"plugins/dplugin_json.so", "dplugin_json.so"}, {"plugins/dplugin_toml.so", "dplugin_toml.so"}};
    for (auto& f : files)
    {
        std::string t;
        if (!slurp (std::string (b) + "/" + f[0], t)) { fprintf (stderr, "%s/%s is missing\n", b, f[0]); exit (3); }
        spill (bin_dir + "/" + f[1], t);
        chmod ((bin_dir + "/" + f[1]).c_str (), 0755);
    }
    char self[4096];
    ssize_t n = readlink ("/proc/self/exe", self, sizeof self - 1);
    std::string src (self, n < 0 ? 0 : n);
    for (int k = 0; k < 3; k++) src.resize (src.rfind ('/'));
    auto cmd = "gcc -w -shared -fPIC -O1 -o '" + bin_dir + "/temps.so' '" + src + "/harness/temps_so.c' -ldl";
    if (system (cmd.c_str ())) { fprintf (stderr, "cannot build: %s\n", cmd.c_str ()); exit (3); }
    chmod ((bin_dir + "/temps.so").c_str (), 0755);
}

// ---- one run of the tool -----------------------------------------------------------------------------------
struct Run { int rc = -1, sig = 0, temps = 0; std::string out, err, key, left; };
static std::string find_fault (const std::string& e)
{
    auto at = e.find ("ERROR: AddressSanitizer: ");
    std::string what;
    if (at != std::string::npos) { at += 25; what = "asan:" + e.substr (at, e.find_first_of (" \n", at) - at); }
    else if ((at = e.find ("runtime error: ")) != std::string::npos)
    {
        std::string w;
        for (char ch : e.substr (at + 15, e.find ('\n', at) - at - 15)) w += isalpha ((unsigned char) ch) ? ch : w.empty () || w.back () == '-' ? (char) 0 : '-';
        w.erase (std::remove (w.begin (), w.end (), (char) 0), w.end ());
        what = "ubsan:" + w.substr (0, 40);
    }
    else if (e.find ("terminate called") != std::string::npos) { at = e.find ("terminate called"); what = "terminate"; }
    else return "";
    // the first frame of the repository
    auto fr = e.find (" /repo/", at);
    if (fr != std::string::npos)
    {
        auto in = e.rfind (" in ", fr);
        if (in != std::string::npos) what += ":" + e.substr (in + 4, e.find_first_of (" (", in + 4) - in - 4);
    }
    return what;
}
static Run run_tool (const std::vector<std::string>& args, const std::string& cwd, const std::string& input)
{
    Run r;
    std::string base = scratch_dir () + "/io", in = base + ".in", out = base + ".out", err = base + ".err", tmps;
    tmps = base + ".tmps";
    spill (in, input); spill (out, ""); spill (err, ""); spill (tmps, "");
    // whoever the tool runs as may write it
    chmod (tmps.c_str (), 0666);
    std::string exe = bin_dir + "/disir";
    std::vector<char *> av, ev;
    av.push_back ((char *) "disir");
    for (auto& a : args) av.push_back ((char *) a.c_str ());
    av.push_back (nullptr);
    std::string lp = "LD_LIBRARY_PATH=" + bin_dir, ao = "ASAN_OPTIONS=detect_leaks=0:exitcode=99:handle_abort=1:verify_asan_link_order=0:detect_stack_use_after_return=1:allocator_may_return_null=1:symbolize=1", uo = "UBSAN_OPTIONS=print_stacktrace=1:exitcode=99";
    std::string pre = "LD_PRELOAD=" + bin_dir + "/temps.so", te = "TEMPS=" + tmps;
    for (auto *s : {&lp, &ao, &uo, &pre, &te}) ev.push_back ((char *) s->c_str ());
    ev.push_back ((char *) "PATH=/usr/bin:/bin");
    ev.push_back (nullptr);
    int fi = open (in.c_str (), O_RDONLY), fo = open (out.c_str (), O_WRONLY | O_TRUNC), fe = open (err.c_str (), O_WRONLY | O_TRUNC);
    pid_t pid = vfork ();
    if (pid == 0)
    {
        dup2 (fi, 0); dup2 (fo, 1); dup2 (fe, 2);
        struct rlimit l = {8 << 20, 8 << 20}, t = {20, 20};
        setrlimit (RLIMIT_FSIZE, &l);
        setrlimit (RLIMIT_CPU, &t);
        if (chdir (cwd.c_str ())) _exit (98);
        execve (exe.c_str (), av.data (), ev.data ());
        _exit (97);
    }
    close (fi); close (fo); close (fe);
    int st = 0;
    while (waitpid (pid, &st, 0) < 0 && errno == EINTR) ;
    r.rc = WIFEXITED (st) ? WEXITSTATUS (st) : -1;
    r.sig = WIFSIGNALED (st) ? WTERMSIG (st) : 0;
    slurp (out, r.out);
    slurp (err, r.err);
    std::string made;
    slurp (tmps, made);
    for (size_t at = 0, nl; (nl = made.find ('\n', at)) != std::string::npos; at = nl + 1)
    {
        auto path = made.substr (at, nl - at);
        struct stat sb;
        r.temps++;
        if (lstat (path.c_str (), &sb)) continue;
        r.left += " " + path;
        if (S_ISREG (sb.st_mode)) unlink (path.c_str ());
    }
    if (r.sig == SIGXFSZ || r.sig == SIGXCPU || r.out.size () >= (8 << 20)) r.key = "endless";
    else { r.key = find_fault (r.err); if (r.key.empty () && r.sig) r.key = strf ("signal:%d", r.sig); if (r.key.empty () && r.rc == 99) r.key = "exit:99"; if (r.rc == 97 || r.rc == 98) { fprintf (stderr, "cannot run the tool (%d) in %s\n", r.rc, cwd.c_str ()); exit (3); } }
    return r;
}

// ---- the installation and its copy ---------------------------------------------------------------------------
struct G { std::string name, dir, ext; PluginKind kind; };             // dir: number of its folders
struct E { int g; std::string id; int mold; };
struct World
{
    Case& c; Rng& r; GenOpt o; std::string top, real, shadow; Inst in; std::vector<G> gs; std::vector<Kind> kinds; std::vector<E> es;
    std::string conf, history; std::set<std::string> archives;
    bool trading = false;                                                    // many exports and imports
    explicit World (Case& x) : c (x), r (x.r) {}
    std::string cdir (const G& g) const { return shadow + "/c" + g.dir; }
    std::string mdir (const G& g) const { return shadow + "/m" + g.dir; }
};
static void swap_text (std::string& s, const std::string& from, const std::string& to)
{
    for (size_t at = 0; (at = s.find (from, at)) != std::string::npos; at += to.size ()) s.replace (at, from.size (), to);
}
static void copy_tree (const std::string& from, const std::string& to)
{
    wipe (to);
    mkdirs (to);
    Snap s;
    snapshot (from, "", s);
    for (auto& f : s) if (f.first.back () == '/') mkdirs (to + "/" + f.first.substr (0, f.first.size () - 1)); else spill (to + "/" + f.first, f.second);
}
static std::map<std::string, std::string> members (const std::string& bytes, bool& ok)
{
    std::vector<Member> ms;
    std::map<std::string, std::string> out;
    ok = unpack (bytes, ms);
    for (auto& m : ms) if (m.type == AE_IFREG) out[m.name] = m.data;
    return out;
}
static bool same_trees (World& w, std::string& why)
{
    Snap a, b;
    snapshot (w.shadow, "", a);
    snapshot (w.real, "", b);
    for (auto& f : a) if (!b.count (f.first)) { why = f.first + " is not there"; return false; }
    for (auto& f : b)
    {
        if (!a.count (f.first)) { why = f.first + " is there" + (f.first.back () == '/' ? "" : ": " + quote (f.second.substr (0, 200))); return false; }
        auto& x = a[f.first];
        if (x == f.second) continue;
        if (f.first.size () > 6 && f.first.compare (f.first.size () - 6, 6, ".disir") == 0)
        {
            bool o1, o2;
            auto m1 = members (x, o1), m2 = members (f.second, o2);
            if (o1 && o2 && m1 == m2) continue;
        }
        why = f.first + " holds " + quote (f.second.substr (0, 300)) + " rather than " + quote (x.substr (0, 300));
        return false;
    }
    return true;
}
static bool clash (World& w, int g, const std::string& id)
{
    for (auto& e : w.es) if (w.gs[e.g].name == w.gs[g].name && (e.id == id || under (e.id, id) || under (id, e.id))) return true;
    return false;
}
static int add_mold (World& w, const MMold& m)
{
    w.kinds.emplace_back ();
    w.kinds.back ().m = m;
    w.kinds.back ().mold = build_mold (w.c, m);
    return w.kinds.back ().mold ? (int) w.kinds.size () - 1 : -1;
}
static std::string cfile (World& w, const E& e) { return w.cdir (w.gs[e.g]) + "/" + e.id + w.gs[e.g].ext; }
static void lengthen (Rng& r, Node& n)
{
    for (auto& k : n.kids) if (k.section) lengthen (r, k); else if (k.v.type == DISIR_VALUE_TYPE_STRING && r.chance (1, 3)) k.v.s = std::string (r.pick ({1023, 1024, 1025, 5000, 1022}), 'l') + (r.chance (1, 2) ? "end" : "");
}
// writes a valid configuration of the entry into the copy, the plugin's folders used directly
static bool put_config (World& w, const E& e)
{
    Case& c = w.c;
    auto& k = w.kinds[e.mold];
    GenOpt o = w.o;
    MConfig x = config_for (w.r, k.m, o);
    if (w.r.chance (1, 3)) lengthen (w.r, x.root);
    auto *cfg = build_config (c, k.mold, x);
    if (!cfg) return false;
    std::string t;
    bool ok = text_of_config (c, w.gs[e.g].kind, w.in.p, cfg, t);
    disir_config_finished (&cfg);
    if (!ok) return false;
    auto f = cfile (w, e);
    mkdirs (f.substr (0, f.rfind ('/')));
    struct stat sb;
    if (lstat (f.c_str (), &sb) == 0 && S_ISDIR (sb.st_mode)) wipe (f);
    spill (f, t);
    return true;
}
// a configuration's text changed so that it may have become invalid, or unreadable
static void spoil (World& w, const std::string& f)
{
    Rng& r = w.r;
    std::string t;
    if (!slurp (f, t)) return;
    int how = (int) r.below (4);
    if (how == 0) t = r.pick ({std::string (""), t.substr (0, t.size () / 2), t + "]}", std::string ("nothing of the kind")});
    else if (how == 1)
    {
        std::vector<std::string> ls;
        for (size_t at = 0, e; at < t.size (); at = e + 1) { e = t.find ('\n', at); if (e == std::string::npos) e = t.size (); ls.push_back (t.substr (at, e - at)); }
        if (ls.size () > 3) ls.erase (ls.begin () + 1 + (long) r.below (ls.size () - 2));
        t.clear ();
        for (auto& l : ls) t += l + "\n";
        // (a comma left over before a closing bracket)
        for (size_t at = 0; (at = t.find (",\n", at)) != std::string::npos; at++) { auto n = t.find_first_not_of (" \t\n", at + 1); if (n != std::string::npos && (t[n] == '}' || t[n] == ']')) t.erase (at, 1); }
    }
    else
    {
        // a number, in place of the value of some element
        std::vector<size_t> at;
        for (size_t k = 1; k < t.size (); k++) if (isdigit ((unsigned char) t[k]) && (t[k - 1] == ' ' || t[k - 1] == '-') ) at.push_back (k);
        if (!at.empty ()) { auto k = at[r.below (at.size ())]; size_t e = k; while (e < t.size () && isdigit ((unsigned char) t[e])) e++; t = t.substr (0, k) + r.pick ({std::string ("999999"), std::string ("0"), std::string ("7")}) + t.substr (e); }
        else if (t.find ("\": \"") != std::string::npos) t.insert (t.find ("\": \"") + 4, "zz");
    }
    spill (f, t);
}
static bool set_up (World& w)
{
    Case& c = w.c;
    Rng& r = w.r;
    w.kinds.reserve (64); w.es.reserve (64);
    w.real = w.top + "/real"; w.shadow = w.top + "/like";
    mkdirs (w.shadow + "/cwd"); mkdirs (w.shadow + "/out");
    if (!w.in.make (c)) return false;
    int ng = (int) r.range (1, 3);
    w.conf = "\"@DISIR_CONFIG_VERSION\" = \"1.0\"\n";
    for (int i = 0; i < ng; i++)
    {
        G g;
        g.name = r.chance (2, 3) ? strf ("grp%d", i) : std::string (GROUPS[r.below (sizeof GROUPS / sizeof *GROUPS)]);
        if (i && r.chance (1, 8)) g.name = w.gs[0].name;               // two plugins of one group
        else for (auto& x : w.gs) if (x.name == g.name) g.name += "x";
        g.dir = strf ("%d", i); g.kind = w.trading || r.chance (2, 3) ? JSON_PLUGIN : TOML_PLUGIN; g.ext = g.kind == JSON_PLUGIN ? ".json" : ".toml";
        mkdirs (w.cdir (g)); mkdirs (w.mdir (g));
        auto d = plugin_of (g.kind, "", "");
        if (g.kind == TOML_PLUGIN) { d.dp_config_fd_write = nullptr; d.dp_config_fd_read = nullptr; }
        d.dp_config_base_id = strdup (w.cdir (g).c_str ());
        d.dp_mold_base_id = strdup (w.mdir (g).c_str ());
        if (!EXPECT_OK (c, disir_plugin_register (w.in.p, &d, "io", g.name.c_str ()))) return false;
        w.conf += "[[plugin]]\ngroup_id = " + toml_string (g.name) + "\nio_id = \"io\"\nconfig_base_id = \"" + w.real + "/c" + g.dir + "\"\nmold_base_id = \"" + w.real + "/m" + g.dir + "\"\nplugin_filepath = \"" + bin_dir + "/dplugin_" + (g.kind == JSON_PLUGIN ? "json" : "toml") + ".so\"\n";
        w.gs.push_back (g);
        int ne = (int) r.range (w.trading ? 1 : 0, 5);
        for (int k = 0; k < ne; k++)
        {
            E e {i, entry_id (r, k), -1};
            if (i && r.chance (w.trading ? 2 : 1, 4) && !w.es.empty ()) e.id = w.es[r.below (w.es.size ())].id;
            if (clash (w, i, e.id)) continue;
            GenOpt o = w.o;
            if ((e.mold = add_mold (w, gen_mold (r, o))) < 0) return false;
            std::string at = w.mdir (g) + "/" + e.id + ".json";
            // the mold of one entry, or of all in its folder
            bool ns = r.chance (1, 4);
            if (ns) at = w.mdir (g) + "/" + (e.id.find ('/') == std::string::npos ? "" : e.id.substr (0, e.id.rfind ('/') + 1)) + "__namespace.json";
            struct stat sb;
            if (ns && lstat (at.c_str (), &sb) == 0) continue;
            Mem m;
            if (!EXPECT_OK (c, dio_json_serialize_mold (w.in.p, w.kinds[e.mold].mold, m.f))) return false;
            mkdirs (at.substr (0, at.rfind ('/')));
            spill (at, m.text ());
            w.es.push_back (e);
            if (ns)
                for (int n = (int) r.below (3); n > 0; n--)
                {
                    E x = e;
                    x.id = (e.id.find ('/') == std::string::npos ? "" : e.id.substr (0, e.id.rfind ('/') + 1)) + strf ("more%d", n);
                    if (!clash (w, i, x.id)) w.es.push_back (x);
                }
            if (r.chance (1, 10)) { std::string t; slurp (at, t); if (r.chance (1, 2)) t = garble (r, JSON_PLUGIN, t, true); else { auto q = t.find ("\"type\""); if (q != std::string::npos) t.replace (q + 1, 4, "tope"); } spill (at, t); }
        }
    }
    for (auto& e : w.es)
    {
        if (r.chance (1, 3)) continue;
        if (!put_config (w, e)) return false;
        if (r.chance (1, w.trading ? 12 : 4)) spoil (w, cfile (w, e));
    }
    copy_tree (w.shadow, w.real);
    spill (w.top + "/conf.toml", w.conf);
    spill (w.top + "/bad.toml", "no = = toml");
    spill (w.top + "/part.toml", w.conf + "[[plugin]]\ngroup_id = \"last\"\nio_id = \"io\"\nplugin_filepath = \"" + w.top + "/nosuch.so\"\n");
    return true;
}

// ---- what is expected --------------------------------------------------------------------------------------
struct Want { bool fails = false, any_rc = false, check_out = true; std::string out; std::vector<std::string> err, out_has; };
static std::string own_error (World& w) { return w.in.error (); }
static int pick_group (World& w, std::vector<std::string>& args)
{
    int g = w.r.chance (1, 3) ? 0 : (int) w.r.below (w.gs.size ());
    auto& n = w.gs[g].name;
    if (n != w.gs[0].name || w.r.chance (1, 2))
    {
        if (n[0] == '-' || w.r.chance (1, 2)) args.push_back ("--group=" + n);
        else { args.push_back ("--group"); args.push_back (n); }
    }
    return g;
}
static std::string some_entry (World& w, int g)
{
    Rng& r = w.r;
    std::vector<std::string> own;
    for (auto& e : w.es) if (w.gs[e.g].name == w.gs[g].name) own.push_back (e.id);
    if (!own.empty () && r.chance (5, 6)) return r.pick (own);
    return r.pick ({std::string ("nosuch"), std::string ("dir/nosuch"), std::string ("dir/"), std::string ("../c0/e"), std::string ("a//b"), std::string ("UP"), std::string ("e/"), std::string ("/"), std::string ("/e"), std::string ("x.json"), std::string ("__namespace"), std::string ("more1"), std::string ((size_t) r.pick ({90, 254, 300, 4090, 4096, 5000, 20000}), 'n') + r.pick ({"", "/x", "/"})});
}
static bool entries_of (World& w, const std::string& group, bool molds, std::set<std::string>& out, enum disir_status& st, std::set<std::string> *spaces = nullptr)
{
    struct disir_entry *q = nullptr;
    st = molds ? disir_mold_entries (w.in.p, group.c_str (), &q) : disir_config_entries (w.in.p, group.c_str (), &q);
    while (q)
    {
        auto *n = q->next;
        if (q->flag.DE_NAMESPACE_ENTRY && spaces) spaces->insert (q->de_entry_name);
        else out.insert (q->de_entry_name);
        disir_entry_finished (&q);
        q = n;
    }
    return st == DISIR_STATUS_OK;
}
static void parts (struct disir_collection *col, std::string& out)
{
    struct disir_context *x = nullptr;
    while (dc_collection_next (col, &x) == DISIR_STATUS_OK)
    {
        char *name = nullptr;
        dc_resolve_root_name (x, &name);
        const char *e = dc_context_error (x);
        if (e) out += strf ("               %s: ", name ? name : "UNRESOLVED") + e + "\n";
        else if (dc_context_type (x) == DISIR_CONTEXT_KEYVAL) out += strf ("               %s: (entry missing error)\n", name ? name : "UNRESOLVED");
        free (name);
        dc_putcontext (&x);
    }
    dc_collection_finished (&col);
}
static void verified (World& w, enum disir_status st, const std::string& id, struct disir_config *cfg, struct disir_mold *m, std::string& out)
{
    if (st == DISIR_STATUS_OK) { out += "    OK:      " + id + "\n"; w.c.count ("verified_ok"); return; }
    if (st == DISIR_STATUS_INVALID_CONTEXT)
    {
        out += "    INVALID: " + id + "\n";
        w.c.count ("verified_invalid");
        struct disir_collection *col = nullptr;
        if (cfg) disir_config_valid (cfg, &col); else if (m) disir_mold_valid (m, &col);
        if (col) parts (col, out);
        return;
    }
    w.c.count ("verified_error");
    auto e = own_error (w);
    out += "    ERROR:   " + id + "\n               " + disir_status_string (st) + "\n             " + (e.empty () ? "(no error registered)" : e) + "\n";
}
static Want op_list (World& w, std::vector<std::string>& args)
{
    Want x;
    auto g = pick_group (w, args);
    std::set<std::string> l;
    enum disir_status st;
    w.c.count ("list");
    if (!entries_of (w, w.gs[g].name, false, l, st)) { x.fails = true; x.out = ""; return x; }
    x.out = "In group " + w.gs[g].name + "\n";
    if (l.empty ()) { x.out += "  There are no available configs.\n"; return x; }
    x.out += strf ("  There are %zu available config(s).\n\n", l.size ());
    for (auto& e : l) x.out += "    " + e + "\n";
    x.out += "\n";
    w.c.count ("listed", (long) l.size ());
    return x;
}
static Want op_verify (World& w, std::vector<std::string>& args)
{
    Want x;
    Rng& r = w.r;
    bool molds = r.chance (1, 3);
    if (molds) args.push_back ("--mold");
    auto g = pick_group (w, args);
    auto& gn = w.gs[g].name;
    std::set<std::string> l;
    enum disir_status st = DISIR_STATUS_OK;
    w.c.count ("verify");
    if (r.chance (1, 2)) for (int k = (int) r.range (1, 3); k > 0; k--) { auto e = some_entry (w, g); l.insert (e); args.push_back (e); }
    else
    {
        std::set<std::string> ns;
        if (!entries_of (w, gn, molds, l, st, &ns)) { x.fails = true; return x; }
        l.insert (ns.begin (), ns.end ());
    }
    x.out = "In group " + gn + "\n";
    if (l.empty ()) { x.out += "  There are no available entries.\n"; return x; }
    x.out += "\n";
    for (auto& e : l)
    {
        struct disir_config *cfg = nullptr;
        struct disir_mold *m = nullptr;
        st = molds ? disir_mold_read (w.in.p, gn.c_str (), e.c_str (), &m) : disir_config_read (w.in.p, gn.c_str (), e.c_str (), nullptr, &cfg);
        verified (w, st, e, cfg, m, x.out);
        if (cfg) disir_config_finished (&cfg);
        if (m) disir_mold_finished (&m);
    }
    x.out += "\n";
    return x;
}
static Want op_verify_text (World& w, std::vector<std::string>& args)
{
    Want x;
    Rng& r = w.r;
    args.push_back ("--text-mold");
    w.c.count ("verify_text");
    if (w.es.empty () || r.chance (1, 5)) { args.push_back (w.real + "/" + r.pick ({"nosuch", "nosuch.json", "m0", "m0/"})); x.any_rc = true; x.check_out = false; return x; }
    auto& e = w.es[r.below (w.es.size ())];
    auto f = w.mdir (w.gs[e.g]) + "/" + e.id + ".json", rf = w.real + f.substr (w.shadow.size ());
    args.push_back (rf);
    struct stat sb;
    if (lstat (f.c_str (), &sb)) { x.any_rc = true; x.check_out = false; return x; }
    struct disir_mold *m = nullptr;
    auto st = dio_json_unserialize_mold_filepath (w.in.p, f.c_str (), nullptr, &m);
    x.out = "mold text: " + f + "\n";
    verified (w, st, f, nullptr, m, x.out);
    if (st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_CONTEXT) w.c.count ("verified_text");
    if (m) disir_mold_finished (&m);
    return x;
}
static bool dumped (World& w, struct disir_context *ctx, int indent, std::string& out)
{
    struct disir_collection *col = nullptr;
    if (!EXPECT_OK (w.c, dc_get_elements (ctx, &col))) return false;
    auto v = collect (col);
    dc_collection_finished (&col);
    bool ok = true;
    for (auto *x : v)
    {
        const char *n = nullptr;
        if (ok) ok = EXPECT_OK (w.c, dc_get_name (x, &n, nullptr));
        if (ok)
        {
            out += std::string (indent, ' ') + n + ": ";
            if (dc_context_type (x) == DISIR_CONTEXT_KEYVAL)
            {
                std::vector<char> b (1 << 16);
                int32_t size = 0;
                ok = EXPECT_OK (w.c, dc_get_value (x, (int32_t) b.size (), b.data (), &size));
                if (strlen (b.data ()) >= 1024) w.c.count ("dumped_long");
                out += b.data ();
                out += "\n";
                w.c.count ("dumped");
            }
            else { out += "\n"; ok = dumped (w, x, indent + 2, out); }
        }
        put (x);
    }
    return ok;
}
static Want op_dump (World& w, std::vector<std::string>& args)
{
    Want x;
    auto g = pick_group (w, args);
    auto e = some_entry (w, g);
    args.push_back (e);
    struct disir_config *cfg = nullptr;
    w.c.count ("dump");
    auto st = disir_config_read (w.in.p, w.gs[g].name.c_str (), e.c_str (), nullptr, &cfg);
    x.out = "In group " + w.gs[g].name + "\n\n";
    if (st == DISIR_STATUS_OK)
    {
        auto *ctx = dc_config_getcontext (cfg);
        dumped (w, ctx, 2, x.out);
        dc_putcontext (&ctx);
    }
    else { x.fails = true; x.err = {e, own_error (w)}; }
    if (cfg) disir_config_finished (&cfg);
    return x;
}
static Want op_remove (World& w, std::vector<std::string>& args)
{
    Want x;
    auto g = pick_group (w, args);
    auto e = some_entry (w, g);
    args.push_back (e);
    w.c.count ("remove");
    auto st = disir_config_remove (w.in.p, w.gs[g].name.c_str (), e.c_str ());
    x.out = "In group " + w.gs[g].name + "\n\n";
    if (st == DISIR_STATUS_OK) { x.out += "Removed: " + e + "\n"; w.c.count ("removed"); }
    else { x.fails = true; x.err = {e, own_error (w)}; }
    return x;
}
static Want op_generate (World& w, std::vector<std::string>& args)
{
    Want x;
    Rng& r = w.r;
    w.c.count ("generate");
    if (r.chance (1, 8))
    {
        auto f = r.pick ({std::string ("out/lib.toml"), std::string ("out/lib.toml"), std::string ("nodir/lib.toml"), std::string ("out"), std::string ("out/../cwd/l.toml")});
        args.push_back ("--libdisir"); args.push_back (w.real + "/" + f);
        struct disir_mold *m = nullptr;
        struct disir_config *cfg = nullptr;
        if (!EXPECT_OK (w.c, disir_libdisir_mold (&m))) return x;
        if (EXPECT_OK (w.c, disir_generate_config_from_mold (m, nullptr, &cfg)))
        {
            auto st = disir_libdisir_config_to_disk (w.in.p, cfg, (w.shadow + "/" + f).c_str ());
            if (st == DISIR_STATUS_OK) { x.out = "Generated libdisir config to '" + w.shadow + "/" + f + "'\n"; w.c.count ("library_config"); } else { x.fails = true; x.err = {own_error (w)}; }
            disir_config_finished (&cfg);
        }
        disir_mold_finished (&m);
        return x;
    }
    bool force = r.chance (1, 4), all = r.chance (1, 3);
    auto g = pick_group (w, args);
    auto& gn = w.gs[g].name;
    if (force) args.push_back ("--force");
    std::set<std::string> molds, configs, ns, avail, go;
    enum disir_status st;
    x.out = "In group " + gn + "\n";
    entries_of (w, gn, false, configs, st);
    entries_of (w, gn, true, molds, st, &ns);
    for (auto& m : molds) if (disir_config_query (w.in.p, gn.c_str (), m.c_str (), nullptr) == DISIR_STATUS_NOT_EXIST) avail.insert (m);
    if (all) { args.push_back ("--all"); go = avail; }
    else if (r.chance (4, 5))
    {
        std::vector<std::string> l;
        for (int k = (int) r.range (1, 3); k > 0; k--) l.push_back (some_entry (w, g));
        for (auto& e : l) args.push_back (e);
        for (auto& e : l)
        {
            auto dir = e.find ('/') == std::string::npos ? std::string ("/") : e.substr (0, e.rfind ('/') + 1);
            bool done = configs.count (e) > 0, here = avail.count (e) || (ns.count (dir) && !done);
            if (!force && done) w.c.count ("already_there");
            if (e.back () == '/' || (!force && !here)) { x.fails = true; x.check_out = false; x.err = {e}; w.c.count ("generate_refused"); return x; }
            go.insert (e);
        }
    }
    if (go.empty ())
    {
        if (!ns.empty ()) { x.out += strf ("  There are %zu namespaces available.\n\n", ns.size ()); for (auto& n : ns) x.out += "    " + n + "\n"; x.out += "\n"; }
        if (avail.empty ()) { x.out += "  There are no available entries to generate.\n"; return x; }
        x.out += strf ("  There are %zu available entries to generate.\n\n", avail.size ());
        for (auto& e : avail) x.out += "    " + e + "\n";
        x.out += "\n";
        w.c.count ("generate_listed");
        return x;
    }
    for (auto& e : go)
    {
        struct disir_mold *m = nullptr;
        struct disir_config *cfg = nullptr;
        bool was = disir_config_query (w.in.p, gn.c_str (), e.c_str (), nullptr) == DISIR_STATUS_EXISTS;
        st = disir_mold_read (w.in.p, gn.c_str (), e.c_str (), &m);
        if (st == DISIR_STATUS_OK) st = disir_generate_config_from_mold (m, nullptr, &cfg);
        if (st == DISIR_STATUS_OK) st = disir_config_write (w.in.p, gn.c_str (), e.c_str (), cfg);
        if (cfg) disir_config_finished (&cfg);
        if (m) disir_mold_finished (&m);
        if (st != DISIR_STATUS_OK) { x.fails = true; w.c.count ("generate_failed"); return x; }
        x.out += "  Generated " + e + "\n";
        w.c.count (was ? "regenerated" : "generated");
    }
    return x;
}
// one that is there, if any
static std::string stored_entry (World& w, int g)
{
    std::vector<std::string> own;
    struct stat sb;
    for (auto& e : w.es) if (w.gs[e.g].name == w.gs[g].name && lstat (cfile (w, e).c_str (), &sb) == 0) own.push_back (e.id);
    return own.empty () ? some_entry (w, g) : w.r.pick (own);
}
static Want op_export (World& w, std::vector<std::string>& args)
{
    Want x;
    Rng& r = w.r;
    w.c.count ("export");
    auto g = pick_group (w, args);
    auto& gn = w.gs[g].name;
    std::set<std::string> l;
    enum disir_status st = DISIR_STATUS_OK;
    std::string dest = "cwd/archive.disir", src;
    std::vector<std::string> names;
    if (r.chance (1, 2)) for (int k = (int) r.range (1, 3); k > 0; k--) { auto e = w.trading && r.chance (9, 10) ? stored_entry (w, g) : some_entry (w, g); l.insert (e); names.push_back (e); }
    else entries_of (w, gn, false, l, st);
    if (st != DISIR_STATUS_OK) { x.fails = true; return x; }
    if (!w.archives.empty () && r.chance (1, 3))
    {
        src = *std::next (w.archives.begin (), (long) r.below (w.archives.size ()));
        if (r.chance (1, 8)) src = "out/nosuch.disir";
        args.push_back ("--append"); args.push_back ("--source"); args.push_back (w.real + "/" + src);
        dest = src;
        w.c.count ("extend");
    }
    else if (r.chance (1, 2))
    {
        auto d = r.pick ({"out", "out", "out/sub", "out/../out"});
        args.push_back (r.chance (1, 2) ? "--dest" : "-d"); args.push_back (w.real + "/" + d);
        dest = std::string (d) + "/archive.disir";
    }
    for (auto& n : names) args.push_back (n);
    struct disir_archive *ar = nullptr;
    st = disir_archive_export_begin (w.in.p, src.empty () ? nullptr : (w.shadow + "/" + src).c_str (), &ar);
    if (st != DISIR_STATUS_OK) { x.fails = true; x.check_out = false; return x; }
    for (auto& e : l) if (st == DISIR_STATUS_OK) { st = disir_archive_append_entry (w.in.p, ar, gn.c_str (), e.c_str ()); if (st != DISIR_STATUS_OK) x.err = {e}; }
    if (st != DISIR_STATUS_OK) { disir_archive_finalize (w.in.p, nullptr, &ar); x.fails = true; w.c.count ("export_refused"); return x; }
    st = disir_archive_finalize (w.in.p, (w.shadow + "/" + dest).c_str (), &ar);
    if (ar) disir_archive_finalize (w.in.p, nullptr, &ar);
    if (st != DISIR_STATUS_OK) { x.fails = true; x.check_out = false; w.c.count ("export_refused"); return x; }
    x.out = "Config entries successfully filed:\n";
    for (auto& e : l) x.out += "    " + e + "\n";
    w.archives.insert (dest.find ("..") == std::string::npos ? dest : "out/archive.disir");
    w.c.count ("exported");
    return x;
}
// the answer to the last question: what is finally asked of the library
static bool answered (std::vector<std::string>& in, std::string& text, Rng& r)
{
    for (int k = 0; k < 6; k++)
    {
        auto a = r.pick ({"y", "y", "n", "yes", "no", "", "x", "yessir", "maybe", "nope", " y", "Y"});
        if (k == 5 || r.chance (1, 10)) return false;            // nothing more to read
        text += std::string (a) + "\n";
        in.push_back (a);
        if (strlen (a) <= 3 && (a[0] == 'y' || a[0] == 'n')) return a[0] == 'y';
    }
    return false;
}
struct Item { std::string id, group, version, info, here, mold; enum disir_status st; int opt = 0; };
static void versions_of (World& w, Item& i)
{
    struct disir_config *cfg = nullptr;
    struct disir_mold *m = nullptr;
    disir_version v;
    char b[64];
    if (disir_config_read (w.in.p, i.group.c_str (), i.id.c_str (), nullptr, &cfg) == DISIR_STATUS_OK && dc_config_get_version (cfg, &v) == DISIR_STATUS_OK) i.here = dc_version_string (b, sizeof b, &v);
    if (disir_mold_read (w.in.p, i.group.c_str (), i.id.c_str (), &m) == DISIR_STATUS_OK && dc_mold_get_version (m, &v) == DISIR_STATUS_OK) i.mold = dc_version_string (b, sizeof b, &v);
    if (cfg) disir_config_finished (&cfg);
    if (m) disir_mold_finished (&m);
}
static Want op_import (World& w, std::vector<std::string>& args, std::string& input, std::vector<Item>& items, bool& effects)
{
    Want x;
    Rng& r = w.r;
    w.c.count ("import");
    std::string src = w.archives.empty () || r.chance (1, 14) ? "out/nosuch.disir" : *std::next (w.archives.begin (), (long) r.below (w.archives.size ()));
    if (r.chance (1, 12)) { src = "out/bad.disir"; spill (w.shadow + "/" + src, "no archive"); spill (w.real + "/" + src, "no archive"); }
    if (!w.archives.empty () && r.chance (1, 15))
    {
        // an archive of nothing
        std::string t;
        bool ok;
        slurp (w.shadow + "/" + *w.archives.begin (), t);
        auto m = members (t, ok)["metadata.toml"];
        auto at = m.find ("[[");
        std::vector<Member> ms (1);
        ms[0].name = "metadata.toml";
        ms[0].data = at == std::string::npos ? m : m.substr (0, at);
        src = "out/empty.disir";
        for (auto& d : {w.shadow, w.real}) spill (d + "/" + src, pack (ms, XZ));
        w.c.count ("empty_archives");
    }
    int mode = (int) r.below (5), prompt = (int) r.below (3);
    static const char *M[] = {"--force", "--soft", "--system", "--interactive", "--inspect"};
    std::vector<std::string> a = {M[mode]};
    if (mode == 3 && r.chance (1, 2)) a[0] = "-i";
    if (prompt == 1) a.push_back ("--accept");
    if (prompt == 2) a.push_back ("--dry-run");
    a.push_back ("--archive");
    a.push_back (w.real + "/" + src);
    if (r.chance (1, 2)) std::rotate (a.begin (), a.end () - 2, a.end ());
    args.insert (args.end (), a.begin (), a.end ());
    struct disir_import *im = nullptr;
    int n = 0;
    auto st = disir_archive_import (w.in.p, (w.shadow + "/" + src).c_str (), &im, &n);
    if (st != DISIR_STATUS_OK) { x.fails = true; x.err = {own_error (w)}; w.c.count ("import_refused"); return x; }
    w.c.count ("imports");
    x.check_out = false;
    bool go = mode != 4, gave_up = false;
    for (int i = 0; i < n; i++)
    {
        Item it;
        const char *e, *g, *v, *info;
        it.st = disir_import_entry_status (im, i, &e, &g, &v, &info);
        it.id = e; it.group = g; it.version = v; it.info = info ? info : "";
        versions_of (w, it);
        w.c.count ("import_entries");
        bool able = it.st != DISIR_STATUS_NO_CAN_DO && it.st != DISIR_STATUS_CONFIG_INVALID;
        if (mode < 3)
        {
            static const int all[] = {DISIR_IMPORT_FORCE, DISIR_IMPORT_UPDATE, DISIR_IMPORT_DO};
            int opt = DISIR_IMPORT_DISCARD;
            if (it.st == DISIR_STATUS_OK) opt = DISIR_IMPORT_DO;
            else if (able) opt = mode == 2 ? (int) DISIR_IMPORT_DISCARD : all[mode];
            if (disir_import_resolve_entry (im, i, (enum disir_import_option) opt) != DISIR_STATUS_OK) opt = DISIR_IMPORT_DISCARD;
            it.opt = opt;
        }
        else if (mode == 3)
            for (int k = 0; ; k++)
            {
                if (k == 8 || r.chance (1, 25)) { gave_up = true; w.c.count ("input_ended"); break; }
                auto l = std::string (r.pick ({"u", "s", "i", "f", "d", "i", "f", "u", "d", "?", "", "h", "discard", "x", "ii", "a"}));
                if (l == "a" && r.chance (2, 3)) l = "d";
                if (k > 4 && !able) l = "d";
                input += l + "\n";
                if (l == "a") { gave_up = true; w.c.count ("aborted"); break; }
                int opt = l == "u" ? DISIR_IMPORT_UPDATE : l == "s" ? DISIR_IMPORT_UPDATE_WITH_DISCARD : l == "i" ? DISIR_IMPORT_DO : l == "f" ? DISIR_IMPORT_FORCE : l == "d" ? DISIR_IMPORT_DISCARD : 0;
                if (!opt) continue;
                if (!able && opt != DISIR_IMPORT_DISCARD) continue;
                if (able && disir_import_resolve_entry (im, i, (enum disir_import_option) opt) != DISIR_STATUS_OK) { w.c.count ("choice_refused"); continue; }
                it.opt = opt;
                w.c.count ("chosen_interactively");
                break;
            }
        items.push_back (it);
        if (gave_up) break;
    }
    if (gave_up) go = false;
    effects = go && prompt != 1;
    bool commit = go && prompt == 1;
    if (go && prompt == 0) { std::vector<std::string> said; commit = answered (said, input, r); w.c.count ("asked"); }
    struct import_report *rep = nullptr;
    st = disir_import_finalize (w.in.p, commit ? DISIR_IMPORT_DO : DISIR_IMPORT_DISCARD, &im, &rep);
    if (st != DISIR_STATUS_OK) { x.fails = true; if (im) disir_import_finalize (w.in.p, DISIR_IMPORT_DISCARD, &im, nullptr); }
    if (commit && rep) for (int i = 0; i < rep->ir_entries; i++) { x.out_has.push_back (std::string ("      ") + rep->ir_entry[i] + "\n"); if (!strncmp (rep->ir_entry[i], "Imported", 8)) w.c.count ("imported"); if (!strncmp (rep->ir_entry[i], "Failed", 6)) w.c.count ("import_failed"); }
    if (commit) w.c.count ("committed");
    auto e = own_error (w);
    if (!e.empty ()) { x.err.push_back (e); x.fails = true; if (commit) w.c.count ("written_in_part"); }          // some could not be written
    if (rep) disir_import_report_destroy (&rep);
    if (mode == 4)
    {
        x.out_has.push_back (strf ("There are %d entries", n));
        w.c.count ("inspected");
    }
    return x;
}
static std::vector<std::string> lines (const std::string& s)
{
    std::vector<std::string> out;
    for (size_t at = 0, e; at < s.size (); at = e + 1) { e = s.find ('\n', at); if (e == std::string::npos) e = s.size (); out.push_back (s.substr (at, e - at)); }
    return out;
}
static bool begins (const std::string& s, const std::string& with) { return s.compare (0, with.size (), with) == 0; }
// the effects announced: one for each entry, of the kind chosen
static void check_effects (World& w, const std::string& out, const std::vector<Item>& items)
{
    auto ls = lines (out);
    size_t at = 0;
    while (at < ls.size () && ls[at].find ("these changes would be made") == std::string::npos) at++;
    if (at == ls.size ()) { w.c.violation ("import:effects", "the effects are not announced"); return; }
    std::vector<std::string> l;
    for (at++; at < ls.size () && l.size () < items.size (); at++) if (!ls[at].empty ()) l.push_back (ls[at]);
    for (auto& i : items)
    {
        auto v = "(" + i.version + ")";
        size_t k = 0;
        for (; k < l.size (); k++)
        {
            if (!begins (l[k], i.id + " ")) continue;
            auto t = l[k].substr (i.id.size ());
            auto has = [&] (const std::string& x) { return t.find (x) != std::string::npos; };
            bool ok = has (v);
            switch (i.opt)
            {
            case DISIR_IMPORT_DO: ok = ok && has ("imported"); break;
            case DISIR_IMPORT_FORCE: ok = ok && has ("overwrite") && has ("(" + i.here + ")"); break;
            case DISIR_IMPORT_DISCARD: ok = ok && has ("discarded"); break;
            default: ok = ok && has ("updated") && has ("(" + i.mold + ")");
            }
            if (ok) break;
        }
        if (k == l.size ()) { w.c.violation ("import:effects", "%s of group %s (%s, option %d): no such effect among %s", quote (i.id).c_str (), quote (i.group).c_str (), i.version.c_str (), i.opt, quote (out).c_str ()); return; }
        l.erase (l.begin () + (long) k);
        w.c.count ("effects");
    }
}
static void check_inspection (World& w, const std::string& out, const std::vector<Item>& items)
{
    auto ls = lines (out);
    for (auto& i : items)
    {
        size_t k = 0;
        for (; k < ls.size (); k++)
        {
            if (!begins (ls[k], i.id + " ")) continue;
            auto rest = ls[k].substr (i.id.size ());
            rest.erase (0, rest.find_first_not_of (' ') == std::string::npos ? rest.size () : rest.find_first_not_of (' '));
            if (!begins (rest, i.group + " ")) continue;
            rest = rest.substr (i.group.size ());
            rest.erase (0, rest.find_first_not_of (' ') == std::string::npos ? rest.size () : rest.find_first_not_of (' '));
            while (!rest.empty () && rest.back () == ' ') rest.pop_back ();
            if (rest == i.version) break;
        }
        if (k == ls.size ()) { w.c.violation ("import:inspect", "%s of group %s at %s is not shown: %s", quote (i.id).c_str (), quote (i.group).c_str (), i.version.c_str (), quote (out).c_str ()); return; }
        ls.erase (ls.begin () + (long) k);
    }
}
// arguments nobody means
static Want op_misuse (World& w, std::vector<std::string>& args, std::vector<std::string>& global)
{
    Want x;
    Rng& r = w.r;
    x.fails = true; x.check_out = false;
    w.c.count ("misuse");
    auto cmd = std::string (r.pick ({"list", "generate", "verify", "dump", "export", "import", "remove"}));
    auto arch = w.archives.empty () ? std::string ("out/none.disir") : *w.archives.begin ();
    switch (r.below (9))
    {
    case 0: args = {r.pick ({std::string ("lst"), std::string ("removee"), std::string ("LIST"), std::string ("x"), std::string (2000, 'l'), std::string ("dump "), std::string ("l\xc3\xb8st")})}; break;
    case 1: args = {cmd, r.pick ({"--no-such", "-z", "--all=", "--groups", "-zz", "--=x"})}; break;
    case 2: args = {cmd == "import" ? "list" : cmd, "--group"}; break;
    case 3: args = {cmd == "import" || cmd == "export" ? "list" : cmd, "--group", "no such group"}; if (cmd == "dump" || cmd == "remove") args.push_back ("e"); break;
    case 4: args = {r.pick ({"dump", "remove"})}; if (r.chance (1, 2)) args.push_back ("--group=" + w.gs[0].name); break;
    case 5: args = {r.pick ({"list"}), "one", "two"}; if (r.chance (1, 2)) args = {r.pick ({"dump", "remove"}), "one", "two"}; break;
    case 6: args = r.pick ({std::vector<std::string> {"import"}, {"import", "--force"}, {"import", "--archive"}, {"import", "--archive", w.real + "/" + arch}, {"import", "--force", "--soft", "--archive", w.real + "/" + arch}, {"import", "--inspect", "--system", "--archive", w.real + "/" + arch}, {"import", "--force", "--accept", "--dry-run", "--archive", w.real + "/" + arch}, {"import", "--archive", w.real + "/" + arch, "--force", "extra"}}); break;
    case 7: args = r.pick ({std::vector<std::string> {"generate", "--all", "e"}, {"export", "--append", "e"}, {"generate", "--libdisir"}, {"verify", "--text-mold"}, {"export", "--dest"}}); break;
    case 8: global = r.pick ({std::vector<std::string> {"--config"}, {"-c", w.real + "/cwd"}, {"-c", w.top + "/bad.toml"}, {"--no-such-flag"}, {"-c", w.top + "/part.toml"}}); args = {"list"}; if (global.size () == 1 && global[0] == "--config") args.clear (); break;
    }
    return x;
}
static bool subsequence (const std::string& want, const std::string& got)
{
    auto a = lines (want), b = lines (got);
    size_t k = 0;
    for (auto& l : b) if (k < a.size () && l == a[k]) k++;
    return k == a.size ();
}
void driver_case (Case& c)
{
    Rng& r = c.r;
    World w (c);
    w.o.depth = (int) r.range (1, 3); w.o.width = (int) r.range (1, 4); if (r.chance (1, 5)) { w.o.depth = (int) r.range (4, 7); w.o.width = 1; } w.o.strings = (int) r.below (3); w.o.docs = r.chance (1, 3);
    w.top = scratch_dir () + "/w";
    Unprivileged lowly;
    wipe (w.top);
    mkdirs (w.top);
    box_reset ();
    w.trading = c.no % 2;
    if (set_up (w) && !c.failed)
    {
        std::vector<std::string> blocked;
        for (int k = (int) r.range (4, 10); k > 0 && !c.failed; k--)
        {
            // in the meantime others change the installation
            if (r.chance (1, 2) && !w.es.empty ())
            {
                auto& e = w.es[r.below (w.es.size ())];
                struct stat sb;
                switch (w.trading && r.chance (1, 2) ? 3 + (int) r.below (2) : (int) r.below (4))
                {
                case 0: put_config (w, e); break;
                case 1: spoil (w, cfile (w, e)); break;
                case 2: if (lstat (cfile (w, e).c_str (), &sb) == 0) wipe (cfile (w, e)); break;
                case 3:
                {
                    // a newer mold
                    auto at = w.mdir (w.gs[e.g]) + "/" + e.id + ".json";
                    if (lstat (at.c_str (), &sb)) break;
                    MMold m = w.kinds[e.mold].m;
                    m.ver = Ver {m.ver.a, m.ver.b + (uint32_t) r.range (1, 3)};
                    renew (r, m, m.ver, w.o);
                    m.ver = mold_version (m);
                    int i = add_mold (w, m);
                    if (i < 0) break;
                    e.mold = i;
                    Mem f;
                    if (EXPECT_OK (c, dio_json_serialize_mold (w.in.p, w.kinds[i].mold, f.f))) spill (at, f.text ());
                    break;
                }
                case 4:
                    // a folder where the entry's file is to be
                    wipe (cfile (w, e));
                    mkdirs (cfile (w, e));
                    w.c.count ("obstacles");
                    break;
                }
                copy_tree (w.shadow, w.real);
            }
            if (c.failed) break;
            bool ro = r.chance (1, 12);
            std::string rod = "/c" + w.gs[r.below (w.gs.size ())].dir;
            if (ro) for (auto& t : {w.real, w.shadow}) chmod ((t + rod).c_str (), 0555);
            if (ro) c.count ("read_only");
            std::vector<std::string> args, global = {"-c", w.top + "/conf.toml"};
            if (r.chance (1, 3)) global = {"--config=" + w.top + "/conf.toml"};
            bool verbose = r.chance (1, 8);
            if (verbose) global.insert (global.begin () + (r.chance (1, 2) ? (long) global.size () : 0), r.pick ({"-V", "--verbose"}));
            std::string input;
            std::vector<Item> items;
            bool effects = false, inspect = false;
            Want want;
            disir_error_clear (w.in.p);
            switch (w.trading && r.chance (2, 3) ? (w.archives.empty () ? 9 : (int) r.range (9, 14)) : (int) r.below (16))
            {
            case 0: args = {"list"}; want = op_list (w, args); break;
            case 1: case 2: args = {"verify"}; want = op_verify (w, args); break;
            case 3: args = {"verify"}; want = op_verify_text (w, args); break;
            case 4: case 5: args = {"dump"}; want = op_dump (w, args); break;
            case 6: args = {"remove"}; want = op_remove (w, args); break;
            case 7: case 8: args = {"generate"}; want = op_generate (w, args); break;
            case 9: case 10: case 11: args = {"export"}; want = op_export (w, args); break;
            case 12: case 13: case 14: args = {"import"}; want = op_import (w, args, input, items, effects); inspect = std::find (args.begin (), args.end (), "--inspect") != args.end (); break;
            case 15: want = op_misuse (w, args, global); break;
            }
            auto all = global;
            all.insert (all.end (), args.begin (), args.end ());
            std::string line;
            for (auto& a : all) line += " " + quote (a.substr (0, 200));
            if (!input.empty ()) line += " <<< " + quote (input);
            w.history += line + "\n";
            c.log ("%s", line.c_str ());
            auto got = run_tool (all, w.real + "/cwd", input);
            if (ro) for (auto& t : {w.real, w.shadow}) chmod ((t + rod).c_str (), 0755);
            c.count ("runs");
            swap_text (got.out, w.real + "/", w.shadow + "/");
            swap_text (got.err, w.real + "/", w.shadow + "/");
            auto& cmd = args.empty () ? global[0] : args[0];
            std::string say = strf ("disir%s: exit %d, ", line.c_str (), got.rc) + "stdout " + quote (got.out) + ", stderr " + quote (got.err);
            if (!got.key.empty ()) { c.violation ("tool:" + got.key, "disir%s: %s\n%s", line.c_str (), got.key.c_str (), got.key == "endless" ? got.out.substr (0, 500).c_str () : got.err.substr (0, 6000).c_str ()); break; }
            c.count ("temporaries", got.temps);
            if (!got.left.empty ()) { c.violation ("left:" + cmd.substr (0, 20), "left behind:%s; %s", got.left.c_str (), say.c_str ()); break; }
            if (!want.any_rc && (got.rc != 0) != want.fails) { c.violation ("exit:" + cmd.substr (0, 20), "expected %s; %s", want.fails ? "failure" : "success", say.c_str ()); break; }
            if (want.fails) { c.count ("failures"); if (got.err.empty () && got.out.empty ()) c.violation ("silent:" + cmd.substr (0, 20), "%s", say.c_str ()); }
            else c.count ("successes");
            if (want.check_out && !want.fails && (verbose ? !subsequence (want.out, got.out) : want.out != got.out)) { c.violation ("output:" + cmd, "expected %s, got %s", quote (want.out).c_str (), say.c_str ()); break; }
            if (want.check_out && !want.fails) c.count ("outputs");
            for (auto& e : want.err) if (got.err.find (e) == std::string::npos) { c.violation ("error-text:" + cmd, "%s is not on stderr; %s", quote (e).c_str (), say.c_str ()); break; }
            for (auto& e : want.out_has) if (got.out.find (e) == std::string::npos) { c.violation ("output:" + cmd, "%s is not on stdout; %s", quote (e).c_str (), say.c_str ()); break; }
            if (!c.failed && effects) check_effects (w, got.out, items);
            if (!c.failed && inspect && !items.empty ()) check_inspection (w, got.out, items);
            if (!c.failed && inspect && items.empty () && !want.fails && !want.any_rc && lines (got.out) != std::vector<std::string> {"There are 0 entries in the archive:", "", "entry_id  group_id    version"} && !verbose)
                c.violation ("import:inspect", "of an empty archive: %s", say.c_str ());
            std::string why;
            if (!c.failed && !same_trees (w, why)) c.violation ("files:" + cmd.substr (0, 20), "after disir%s %s; %s", line.c_str (), why.c_str (), say.c_str ());
            c.nontrivial (line + got.out + got.err);
        }
        if (c.no % 61 == 5) c.sample (w.history);
    }
    w.in.done (c);
    for (auto& k : w.kinds) if (k.mold) disir_mold_finished (&k.mold);
    wipe (w.top);
}
