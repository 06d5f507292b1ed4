// C20: the entry store is a map from entry id to the configuration last written.
#include "store.inc"
const char *PROPERTY = "C20";
const char *RULE = "one history of store operations; distinct by the operations and their outcomes; non-trivial: at least one configuration was stored";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"op_write", 4000}, {"op_overwrite", 500}, {"op_remove", 1000}, {"op_read", 4000}, {"op_query", 3000}, {"op_list", 1500}, {"op_mold_list", 800}, {"op_mold_write", 1500}, {"op_reopen", 300},
    {"no_mold", 1000}, {"absent", 1000}, {"listed_entries", 4000}, {"deep_ids", 1000}, {"prefix_neighbours", 1000}, {"namespace_covered", 1000}, {"foreign", 500}, {"two_groups", 300}};
long driver_directed () { return 0; }
void driver_setup () {}

static Node grouped (const Node& n)
{
    Node r = n;
    for (auto& k : r.kids) k = grouped (k);
    std::stable_sort (r.kids.begin (), r.kids.end (), [] (const Node& a, const Node& b) { return a.name < b.name; });
    return r;
}
typedef std::map<std::string, std::string> Snap;
struct Group
{
    std::string name, cdir, mdir;
    PluginKind kind;
    std::map<std::string, int> molds;                       // by id, "…/__namespace" included
    struct Stored { MConfig cfg; int mold; };
    std::map<std::string, Stored> configs;
};
static std::string dir_of (const std::string& id) { auto p = id.rfind ('/'); return p == std::string::npos ? "" : id.substr (0, p + 1); }
static std::string base_of (const std::string& id) { auto p = id.rfind ('/'); return p == std::string::npos ? id : id.substr (p + 1); }
static int mold_of (const Group& g, const std::string& id)
{
    auto it = g.molds.find (id);
    if (it != g.molds.end ()) return it->second;
    it = g.molds.find (dir_of (id) + "__namespace");
    return it == g.molds.end () ? -1 : it->second;
}
struct World
{
    Case& c; Rng& r; Inst in; std::string base;
    std::vector<MMold> models; std::vector<struct disir_mold *> molds;
    std::vector<Group> groups;
    std::string hist;
    GenOpt o;
    explicit World (Case& x) : c (x), r (x.r) {}
    Snap snap () const { Snap s; snapshot (base, "", s); return s; }
    std::string rel (const std::string& path) const { return path.substr (base.size () + 1); }
};
static bool open_instance (World& w)
{
    if (!w.in.make (w.c)) return false;
    int n = 0;
    for (auto& g : w.groups) if (!w.in.plugin (w.c, g.kind, strf ("io%d", n++).c_str (), g.name.c_str (), g.cdir, g.mdir)) return false;
    return true;
}
// what changed between two snapshots: nothing but 'file' (and directories leading to it, or the base directories)
static void only (World& w, const char *op, const Snap& a, const Snap& b, const std::string& file, bool may_change)
{
    auto allowed_dir = [&] (const std::string& d) { return file.compare (0, d.size (), d) == 0; };
    for (auto& e : b)
    {
        auto it = a.find (e.first);
        bool dir = e.first.back () == '/';
        if (it != a.end () && it->second == e.second) continue;
        if (dir) { bool base = false; for (auto& g : w.groups) base |= (w.rel (g.cdir) + "/").compare (0, e.first.size (), e.first) == 0 || (w.rel (g.mdir) + "/").compare (0, e.first.size (), e.first) == 0; if (base || (may_change && allowed_dir (e.first))) continue; }
        else if (may_change && e.first == file) continue;
        w.c.violation (strf ("%s:other-file", op), "%s touched %s", op, e.first.c_str ());
        return;
    }
    for (auto& e : a)
        if (!b.count (e.first) && !(may_change && e.first == file)) { w.c.violation (strf ("%s:lost-file", op), "%s removed %s", op, e.first.c_str ()); return; }
}
static std::string gen_id (World& w)
{
    static const char *part[] = {"a", "ab", "a_b", "a0", "abc", "b", "x9", "__namespace", "n_", "entry"};
    Rng& r = w.r;
    if (r.chance (1, 80)) return std::string (r.range (200, 245), 'q');
    std::string s;
    int d = (int) r.below (r.chance (1, 3) ? 6 : 3);
    for (int i = 0; i <= d; i++) { if (i) s += "/"; s += part[r.below (r.chance (1, 8) ? 10 : 7)]; if (r.chance (1, 12)) s += strf ("%d", (int) r.below (3)); }
    return s;
}
// ids in play: mostly those that exist, their neighbours and prefixes
static std::string pick_id (World& w, Group& g)
{
    Rng& r = w.r;
    int k = (int) r.below (10);
    if (k < 4 && !g.configs.empty ()) { auto it = g.configs.begin (); std::advance (it, r.below (g.configs.size ())); return it->first; }
    if (k < 8 && !g.molds.empty ())
    {
        auto it = g.molds.begin (); std::advance (it, r.below (g.molds.size ()));
        auto id = it->first;
        if (base_of (id) == "__namespace" && r.chance (3, 4)) return dir_of (id) + (r.chance (1, 2) ? "cov" : strf ("cov%d", (int) r.below (4)));
        switch (r.below (8))
        {
        case 0: w.c.count ("prefix_neighbours"); return id + "b";
        case 1: w.c.count ("prefix_neighbours"); return id + "/a";
        case 2: if (id.size () > 1 && id[id.size () - 2] != '/') { w.c.count ("prefix_neighbours"); return id.substr (0, id.size () - 1); } return id;
        default: return id;
        }
    }
    return gen_id (w);
}
static void note (World& w, const std::string& s) { w.hist += s + "\n"; w.c.log ("%s", s.c_str ()); }
static void refused (World& w, const char *op, enum disir_status st, const Snap& before)
{
    if (st == DISIR_STATUS_OK || st == DISIR_STATUS_EXISTS) return;
    w.c.count ("refused");
    if (w.in.error ().empty ()) w.c.violation (strf ("%s:silent", op), "%s refused with %s without an error text; history\n%s", op, sname (st), w.hist.c_str ());
    only (w, op, before, w.snap (), "", false);
}
static void expect (World& w, const char *op, enum disir_status st, enum disir_status want)
{
    if (st != want) w.c.violation (strf ("%s:%s", op, sname (want)), "%s returned %s instead of %s (%s); history\n%s", op, sname (st), sname (want), w.in.error ().c_str (), w.hist.c_str ());
}
static void op_list (World& w, Group& g)
{
    struct disir_entry *q = nullptr;
    auto before = w.snap ();
    auto st = disir_config_entries (w.in.p, g.name.c_str (), &q);
    w.c.count ("op_list");
    expect (w, "list", st, DISIR_STATUS_OK);
    std::multiset<std::string> got;
    while (q) { auto *n = q->next; got.insert (q->de_entry_name); disir_entry_finished (&q); q = n; }
    std::multiset<std::string> want;
    for (auto& e : g.configs) if (mold_of (g, e.first) >= 0) want.insert (e.first);
    w.c.count ("listed_entries", (long) want.size ());
    for (auto& x : got) if (got.count (x) > 1) { w.c.violation ("list:twice", "%s is listed %d times; history\n%s", x.c_str (), (int) got.count (x), w.hist.c_str ()); return; }
    for (auto& x : want) if (!got.count (x)) { w.c.violation ("list:missing", "%s is stored but not listed; history\n%s", x.c_str (), w.hist.c_str ()); return; }
    for (auto& x : got) if (!want.count (x)) { w.c.violation ("list:surplus", "%s is listed but not stored; history\n%s", x.c_str (), w.hist.c_str ()); return; }
    only (w, "list", before, w.snap (), "", false);
}
static void op_mold_list (World& w, Group& g)
{
    struct disir_entry *q = nullptr;
    auto st = disir_mold_entries (w.in.p, g.name.c_str (), &q);
    w.c.count ("op_mold_list");
    expect (w, "mold-list", st, DISIR_STATUS_OK);
    std::multiset<std::string> got, want;
    while (q) { auto *n = q->next; got.insert (std::string (q->de_entry_name) + (q->flag.DE_NAMESPACE_ENTRY ? "*" : "")); disir_entry_finished (&q); q = n; }
    for (auto& e : g.molds) want.insert (base_of (e.first) == "__namespace" ? (dir_of (e.first).empty () ? "/" : dir_of (e.first)) + "*" : e.first);
    if (got != want)
    {
        std::string a, b;
        for (auto& x : want) a += x + " "; for (auto& x : got) b += x + " ";
        w.c.violation ("mold-list", "molds listed: %s; stored: %s; history\n%s", b.c_str (), a.c_str (), w.hist.c_str ());
    }
}
static void op_query (World& w, Group& g, const std::string& id)
{
    struct disir_entry *e = nullptr;
    auto before = w.snap ();
    bool want_entry = w.r.chance (1, 2);
    auto st = disir_config_query (w.in.p, g.name.c_str (), id.c_str (), want_entry ? &e : nullptr);
    w.c.count ("op_query");
    note (w, "query " + g.name + " " + id + " -> " + sname (st));
    bool has_mold = mold_of (g, id) >= 0, has = g.configs.count (id);
    expect (w, "query", st, !has_mold ? DISIR_STATUS_MOLD_MISSING : has ? DISIR_STATUS_EXISTS : DISIR_STATUS_NOT_EXIST);
    if (st == DISIR_STATUS_EXISTS && want_entry && (!e || id != e->de_entry_name)) w.c.violation ("query:entry", "the entry returned for %s is named %s", id.c_str (), e ? e->de_entry_name : "(none)");
    if (e) disir_entry_finished (&e);
    refused (w, "query", st, before);
    e = nullptr;
    st = disir_mold_query (w.in.p, g.name.c_str (), id.c_str (), &e);
    expect (w, "mold-query", st, has_mold ? DISIR_STATUS_EXISTS : DISIR_STATUS_NOT_EXIST);
    if (e) { if (id != e->de_entry_name) w.c.violation ("mold-query:entry", "the mold entry returned for %s is named %s", id.c_str (), e->de_entry_name); disir_entry_finished (&e); }
}
static void op_read (World& w, Group& g, const std::string& id)
{
    struct disir_config *cfg = nullptr;
    auto before = w.snap ();
    int mi = mold_of (g, id);
    auto it = g.configs.find (id);
    bool own = mi >= 0 && w.r.chance (1, 3);
    auto st = disir_config_read (w.in.p, g.name.c_str (), id.c_str (), own ? w.molds[mi] : nullptr, &cfg);
    w.c.count ("op_read");
    note (w, "read " + g.name + " " + id + " -> " + sname (st));
    if (mi < 0 || it == g.configs.end ())
    {
        w.c.count (mi < 0 ? "no_mold" : "absent");
        expect (w, "read", st, DISIR_STATUS_NOT_EXIST);
        if (cfg) w.c.violation ("read:object", "reading %s returned %s and a configuration", id.c_str (), sname (st));
    }
    else if (it->second.mold == mi)
    {
        expect (w, "read", st, DISIR_STATUS_OK);
        MConfig got;
        if (cfg && dump_config (w.c, cfg, got))
        {
            if (!(got.ver == it->second.cfg.ver) || !(grouped (got.root) == grouped (it->second.cfg.root)))
                w.c.violation ("read:content", "%s holds version %s, read version %s: %s; history\n%s", id.c_str (), it->second.cfg.ver.str ().c_str (), got.ver.str ().c_str (),
                               first_difference (grouped (it->second.cfg.root), grouped (got.root)).c_str (), w.hist.c_str ());
        }
    }
    else w.c.count ("other_mold");           // written under another mold: what it says now is C19's
    if (st == DISIR_STATUS_OK && !cfg) w.c.violation ("read:none", "reading %s returned OK without a configuration", id.c_str ());
    if (cfg) disir_config_finished (&cfg);
    only (w, "read", before, w.snap (), "", false);
    if (st != DISIR_STATUS_OK && st != DISIR_STATUS_INVALID_CONTEXT) refused (w, "read", st, before);
}
static void op_write (World& w, Group& g, const std::string& id)
{
    int mi = mold_of (g, id);
    int use = mi >= 0 ? mi : (int) w.r.below (w.molds.size ());
    MConfig want;
    auto vs = breakpoints (w.models[use]);
    want.ver = w.r.chance (1, 2) ? w.models[use].ver : w.r.pick (vs);
    want.root = gen_config (w.r, w.models[use], want.ver, w.o);
    want.root.section = true;
    auto *cfg = build_config (w.c, w.molds[use], want);
    if (!cfg) return;
    auto before = w.snap ();
    auto st = disir_config_write (w.in.p, g.name.c_str (), id.c_str (), cfg);
    note (w, strf ("write %s %s (mold %d, %d elements) -> %s", g.name.c_str (), id.c_str (), use, (int) want.root.kids.size (), sname (st)));
    if (mi < 0) { w.c.count ("no_mold"); expect (w, "write", st, DISIR_STATUS_MOLD_MISSING); refused (w, "write", st, before); }
    else
    {
        w.c.count (g.configs.count (id) ? "op_overwrite" : "op_write");
        if (id.find ('/') != id.rfind ('/')) w.c.count ("deep_ids");
        if (!g.molds.count (id)) w.c.count ("namespace_covered");
        expect (w, "write", st, DISIR_STATUS_OK);
        auto file = w.rel (g.cdir) + "/" + id + (g.kind == JSON_PLUGIN ? ".json" : ".toml");
        auto after = w.snap ();
        only (w, "write", before, after, file, true);
        if (st == DISIR_STATUS_OK) g.configs[id] = {want, use};
        MConfig got;
        if (dump_config (w.c, cfg, got) && !(got == want)) w.c.violation ("write:argument", "the configuration written was changed");
    }
    disir_config_finished (&cfg);
}
static void op_remove (World& w, Group& g, const std::string& id)
{
    auto before = w.snap ();
    auto st = disir_config_remove (w.in.p, g.name.c_str (), id.c_str ());
    note (w, "remove " + g.name + " " + id + " -> " + sname (st));
    w.c.count ("op_remove");
    bool has_mold = mold_of (g, id) >= 0, has = g.configs.count (id);
    expect (w, "remove", st, !has_mold ? DISIR_STATUS_MOLD_MISSING : has ? DISIR_STATUS_OK : DISIR_STATUS_NOT_EXIST);
    if (st == DISIR_STATUS_OK)
    {
        only (w, "remove", before, w.snap (), w.rel (g.cdir) + "/" + id + (g.kind == JSON_PLUGIN ? ".json" : ".toml"), true);
        g.configs.erase (id);
    }
    refused (w, "remove", st, before);
}
static void op_mold_write (World& w, Group& g, const std::string& id)
{
    int mi = (int) w.r.below (w.molds.size ());
    auto before = w.snap ();
    auto st = disir_mold_write (w.in.p, g.name.c_str (), id.c_str (), w.molds[mi]);
    w.c.count ("op_mold_write");
    note (w, strf ("mold-write %s %s (mold %d) -> %s", g.name.c_str (), id.c_str (), mi, sname (st)));
    expect (w, "mold-write", st, DISIR_STATUS_OK);
    only (w, "mold-write", before, w.snap (), w.rel (g.mdir) + "/" + id + ".json", true);
    if (st == DISIR_STATUS_OK) g.molds[id] = mi;
}
static void foreign (World& w, Group& g)
{
    Rng& r = w.r;
    static const char *names[] = {"README", "notes.txt", "Upper.json", "Upper.toml", "a.b.json", "a.b.toml", "x.json.bak", "x.toml~", ".hidden.json", ".hidden.toml", "sp ace.json", "sp ace.toml", "json", "toml", "ajson", "zz-z.json", "zz-z.toml", "d\xc3\xa9.json", "d\xc3\xa9.toml"};
    std::string dir = r.chance (1, 2) ? g.cdir : g.mdir;
    std::vector<std::string> dirs {dir};
    Snap s;
    snapshot (dir, "", s);
    for (auto& e : s) if (e.first.back () == '/') dirs.push_back (dir + "/" + e.first.substr (0, e.first.size () - 1));
    auto in = dirs[r.below (dirs.size ())];
    std::string n = names[r.below (19)];
    if (r.chance (1, 3))
    {
        // any one printable character that no entry name has
        int ch;
        do ch = 33 + (int) r.below (94); while ((ch >= 'a' && ch <= 'z') || (ch >= '0' && ch <= '9') || ch == '_' || ch == '/');
        static const char *at[] = {"%cq", "q%c", "q%cq", "q%c_9", "%c"};
        n = strf (at[r.below (5)], ch) + (r.chance (1, 2) ? ".json" : ".toml");
        w.c.count ("foreign_characters");
    }
    mkdirs (in);
    w.c.count ("foreign");
    // a directory named like an entry file, a foreign file, or an entry file of no mold
    switch (r.below (4))
    {
    case 0: mkdir ((in + "/dir" + std::string (r.chance (1, 2) ? ".json" : ".toml")).c_str (), 0755); break;
    case 1: { auto f = in + "/orphan" + (g.kind == JSON_PLUGIN ? ".toml" : ".cfg"); if (dir == g.cdir) spill (f, "x"); break; }
    default: spill (in + "/" + n, "not an entry");
    }
    note (w, "foreign in " + in.substr (w.base.size ()) + " " + n);
}
static void odd_ids (World& w, Group& g)
{
    // a namespace or nothing is no entry
    std::vector<std::string> ids {"", "/"};
    for (auto& m : g.molds) if (!dir_of (m.first).empty ()) { ids.push_back (dir_of (m.first)); break; }
    auto id = w.r.pick (ids);
    int use = (int) w.r.below (w.molds.size ());
    MConfig want;
    want.ver = w.models[use].ver;
    want.root = gen_config (w.r, w.models[use], want.ver, w.o);
    auto before = w.snap ();
    auto *cfg = build_config (w.c, w.molds[use], want);
    if (!cfg) return;
    note (w, "odd id " + quote (id));
    auto st = disir_config_write (w.in.p, g.name.c_str (), id.c_str (), cfg);
    if (st == DISIR_STATUS_OK) w.c.violation ("odd:write", "a configuration was written as %s", quote (id).c_str ());
    refused (w, "odd:write", st, before);
    st = disir_config_remove (w.in.p, g.name.c_str (), id.c_str ());
    if (st == DISIR_STATUS_OK) w.c.violation ("odd:remove", "a configuration was removed as %s", quote (id).c_str ());
    refused (w, "odd:remove", st, before);
    st = disir_mold_write (w.in.p, g.name.c_str (), id.c_str (), w.molds[use]);
    if (st == DISIR_STATUS_OK) w.c.violation ("odd:mold-write", "a mold was written as %s", quote (id).c_str ());
    refused (w, "odd:mold-write", st, before);
    struct disir_config *back = nullptr;
    st = disir_config_read (w.in.p, g.name.c_str (), id.c_str (), nullptr, &back);
    if (st == DISIR_STATUS_OK) w.c.violation ("odd:read", "a configuration was read as %s", quote (id).c_str ());
    if (back) disir_config_finished (&back);
    disir_config_finished (&cfg);
    w.c.count ("odd_ids");
}
void driver_case (Case& c)
{
    Rng& r = c.r;
    World w (c);
    w.o.depth = 2; w.o.width = 3; w.o.strings = (int) r.below (3);
    w.base = scratch_dir () + "/st";
    wipe (w.base);
    mkdirs (w.base);
    int nm = (int) r.range (1, 3);
    for (int i = 0; i < nm; i++)
    {
        w.models.push_back (gen_mold (r, w.o));
        auto *m = build_mold (c, w.models.back ());
        if (!m) { for (auto *x : w.molds) disir_mold_finished (&x); return; }
        w.molds.push_back (m);
    }
    int ng = r.chance (1, 3) ? 2 : 1;
    if (ng == 2) c.count ("two_groups");
    for (int i = 0; i < ng; i++)
    {
        Group g;
        g.name = i ? "other" : "grp";
        g.kind = r.chance (1, 2) ? JSON_PLUGIN : TOML_PLUGIN;
        g.cdir = w.base + strf ("/c%d", i);
        g.mdir = w.base + strf ("/m%d", i);
        if (r.chance (1, 6)) { g.cdir += "/deep/er"; }
        if (r.chance (1, 2)) mkdirs (g.cdir);
        if (r.chance (1, 2)) mkdirs (g.mdir);
        w.groups.push_back (g);
    }
    bool ok = open_instance (w);
    int n = (int) r.range (10, 40);
    for (int i = 0; ok && i < n && !c.failed; i++)
    {
        auto& g = w.groups[r.below (w.groups.size ())];
        int k = (int) r.below (100);
        if (k < (i < 8 ? 40 : 10))
        {
            auto id = r.chance (1, 4) ? dir_of (gen_id (w)) + "__namespace" : gen_id (w);
            op_mold_write (w, g, id);
        }
        else if (k < 45) op_write (w, g, pick_id (w, g));
        else if (k < 62) op_read (w, g, pick_id (w, g));
        else if (k < 74) op_query (w, g, pick_id (w, g));
        else if (k < 83) op_remove (w, g, pick_id (w, g));
        else if (k < 89) op_list (w, g);
        else if (k < 92) op_mold_list (w, g);
        else if (k < 95) foreign (w, g);
        else if (k < 97) odd_ids (w, g);
        else if (k < 98 && !g.molds.empty ())
        {
            // the mold of an entry is taken away by its administrator
            auto it = g.molds.begin (); std::advance (it, r.below (g.molds.size ()));
            note (w, "unlink mold " + g.name + " " + it->first);
            unlink ((g.mdir + "/" + it->first + ".json").c_str ());
            g.molds.erase (it);
        }
        else
        {
            note (w, "reopen");
            w.in.done (c);
            c.count ("op_reopen");
            ok = open_instance (w);
        }
    }
    // in the end, every entry of every group
    for (auto& g : w.groups)
    {
        if (!ok || c.failed) break;
        op_list (w, g);
        op_mold_list (w, g);
        std::vector<std::string> ids;
        for (auto& e : g.configs) ids.push_back (e.first);
        for (auto& id : ids) { if (c.failed) break; op_read (w, g, id); op_query (w, g, id); }
        if (!g.configs.empty ()) c.nontrivial (w.hist);
    }
    w.in.done (c);
    for (auto *x : w.molds) disir_mold_finished (&x);
    wipe (w.base);
}
