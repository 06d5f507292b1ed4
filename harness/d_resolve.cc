// C23: entries resolve to their own mold, else the namespace mold of their directory, plus override.
#include "store.inc"
#include "jv.inc"
const char *PROPERTY = "C23";
const char *RULE = "one entry id resolved in one directory layout; distinct by layout, molds and override text; non-trivial: a namespace mold or an override takes part, or no mold covers the entry";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"resolved", 8000}, {"own_mold", 3000}, {"namespace_mold", 1500}, {"no_mold", 1000}, {"own_over_namespace", 1500}, {"overridden", 2500}, {"default_replaced", 1000}, {"default_added", 1000}, {"default_added_between", 200},
    {"override_without_mold", 200}, {"nested_overrides", 300}, {"several_versions", 300}, {"bad_overrides", 400}, {"bad:unknown", 60}, {"bad:version", 60}, {"bad:unmapped", 60}, {"bad:type", 60}, {"listings", 600}, {"config_trips", 1500}, {"layout_changes", 600}};
long driver_directed () { return 0; }
void driver_setup () {}
static const Ver LAST {4000000000u, 0};

// The text keeps one documentation entry per element, the newest, without a version.
static void newest (std::vector<MDoc>& d)
{
    if (d.empty ()) return;
    size_t best = 0;
    for (size_t i = 1; i < d.size (); i++) if (d[best].intro < d[i].intro) best = i;
    MDoc x = d[best];
    x.intro = Ver {0, 0};
    d.assign (1, x);
}
static void normal (MEl& e)
{
    newest (e.docs);
    for (auto& r : e.res) { newest (r.docs); r.lo += 0.0; r.hi += 0.0; }
    for (auto& k : e.kids) normal (k);
}
struct Mold { MMold m; std::string text; };
struct Over { std::string text; bool bad = false; std::vector<std::string> path; std::vector<MDef> defs; std::vector<std::vector<std::string>> paths; };
struct Place { int own = -1; bool over = false; Over o; };
struct World
{
    Case& c; Rng& r; GenOpt o; Inst in; std::string base, mdir, cdir, ext; PluginKind kind;
    std::vector<Mold> molds;
    std::map<std::string, int> ns;                       // directory -> mold
    std::map<std::string, Place> at;                     // entry -> what there is
    explicit World (Case& x) : c (x), r (x.r) {}
};
static const char *DIRS[] = {"", "a/", "a/b/", "a/b/e1/", "bb/"};
static const char *NAMES[] = {"e1", "e2", "e3"};
static std::string dir_of (const std::string& id) { auto p = id.rfind ('/'); return p == std::string::npos ? "" : id.substr (0, p + 1); }

static void keyvals (const MEl& e, std::vector<std::string> at, std::vector<std::pair<std::vector<std::string>, const MEl *>>& out)
{
    for (auto& k : e.kids)
    {
        auto p = at;
        p.push_back (k.name);
        if (k.section) keyvals (k, p, out); else out.push_back ({p, &k});
    }
}
static std::string dotted (const std::vector<std::string>& p) { std::string s; for (auto& x : p) s += (s.empty () ? "" : ".") + x; return s; }
static MEl *find_path (MEl& m, const std::vector<std::string>& p)
{
    MEl *e = &m;
    for (auto& n : p) { MEl *f = nullptr; for (auto& k : e->kids) if (k.name == n) f = &k; if (!f) return nullptr; e = f; }
    return e;
}
static JV json_of (const Val& v)
{
    switch (v.type)
    {
    case DISIR_VALUE_TYPE_INTEGER: return JV::N (strf ("%lld", (long long) v.i));
    case DISIR_VALUE_TYPE_BOOLEAN: return JV::B (v.b);
    case DISIR_VALUE_TYPE_FLOAT: { auto s = strf ("%.17g", v.d); if (s.find_first_of (".e") == std::string::npos) s += ".0"; return JV::N (s); }
    default: return JV::S (v.s);
    }
}
static Val wrong_type (Rng& r, int t)
{
    GenOpt o; o.strings = 0; o.extreme_values = false;
    for (;;)
    {
        int u = (int) r.range (1, 5);
        if (u == t || (u == DISIR_VALUE_TYPE_ENUM) || (t == DISIR_VALUE_TYPE_ENUM && u == DISIR_VALUE_TYPE_STRING) || (t == DISIR_VALUE_TYPE_FLOAT && u == DISIR_VALUE_TYPE_INTEGER)) continue;
        if (t == DISIR_VALUE_TYPE_INTEGER && u == DISIR_VALUE_TYPE_FLOAT) { Val v; v.type = u; v.d = 1.5; return v; }
        return gen_value (r, u, o);
    }
}
// an override document for 'm', and what it does
static Over some_override (World& w, const MMold& m, bool want_bad)
{
    Rng& r = w.r;
    Over o;
    std::vector<std::pair<std::vector<std::string>, const MEl *>> kv;
    keyvals (m, {}, kv);
    auto vs = breakpoints (m);
    // several versions of the override, each following one of the mold
    JV sync = JV::A ();
    std::vector<std::pair<std::string, Ver>> map;
    int n = (int) r.range (1, 4);
    std::set<Ver> used;
    for (int i = 0; i < n; i++)
    {
        Ver to = r.chance (1, 4) ? m.ver : r.pick (vs);
        if (m.ver < to || used.count (to)) continue;
        used.insert (to);
        auto from = strf ("%d.%d", (int) map.size () + 1, (int) r.below (3));
        map.push_back ({from, to});
    }
    if (map.empty ()) map.push_back ({"1.0", m.ver});
    int badkind = want_bad ? (int) r.below (5) : -1;
    if (badkind == 1) { Ver v = m.ver; if (r.chance (1, 2)) v.b++; else v.a++; map.push_back ({"99.1", v}); }
    for (auto i : map) { JV s = JV::O (); s.set ("namespace", JV::S (i.second.str ())); s.set ("override", JV::S (i.first)); sync.a.push_back (s); }
    if (r.chance (1, 2)) std::reverse (sync.a.begin (), sync.a.end ());
    JV over = JV::O ();
    int names = (int) r.range (1, 4);
    for (int k = 0; k < names && !kv.empty (); k++)
    {
        auto& t = kv[r.below (kv.size ())];
        auto key = dotted (t.first);
        if (over.get (key)) continue;
        JV list = JV::A ();
        int made = 0;
        for (auto& v : map)
        {
            if (v.first == "99.1" || !r.chance (2, 3)) continue;
            Val x = gen_accepted (r, *t.second, v.second, w.o);
            if (x.type != t.second->vtype || !accepts (*t.second, v.second, x)) continue;
            JV e = JV::O ();
            e.set ("version", JV::S (v.first));
            e.set ("value", json_of (x));
            list.a.push_back (e);
            MDef d; d.intro = v.second; d.v = x;
            o.defs.push_back (d);
            o.paths.push_back (t.first);
            made++;
        }
        if (!made) continue;
        if (made > 1 && r.chance (1, 2)) std::reverse (list.a.begin (), list.a.end ());
        over.set (key, made == 1 && r.chance (1, 2) ? list.a[0] : list);
        if (made > 1) w.c.count ("several_versions");
        if (t.first.size () > 1) w.c.count ("nested_overrides");
    }
    if (want_bad)
    {
        o.bad = true;
        JV e = JV::O ();
        auto& v = map[0];
        const char *what = "";
        switch (badkind)
        {
        case 0:
            what = "bad:unknown";
            e.set ("version", JV::S (v.first)); e.set ("value", JV::N ("1"));
            over.set (kv.empty () || r.chance (1, 2) ? "no_such_entry" : dotted (kv[0].first) + ".no_such", e);
            break;
        case 1:
        {
            what = "bad:version";
            auto& t = kv[r.below (kv.size ())];
            Val x = t.second->defs.empty () ? Val::I (1) : t.second->defs.back ().v;
            e.set ("version", JV::S ("99.1")); e.set ("value", json_of (x));
            over.set (dotted (t.first), e);
            break;
        }
        case 2:
        {
            what = "bad:unmapped";
            auto& t = kv[r.below (kv.size ())];
            e.set ("version", JV::S ("77.7")); e.set ("value", json_of (t.second->defs.back ().v));
            JV list = JV::A ({e});
            if (auto *was = over.get (dotted (t.first))) { if (was->t == JV::ARR) { list = *was; list.a.push_back (e); } }
            over.set (dotted (t.first), list);
            break;
        }
        case 3:
        {
            what = "bad:type";
            auto& t = kv[r.below (kv.size ())];
            e.set ("version", JV::S (v.first)); e.set ("value", r.chance (1, 4) ? JV::O () : json_of (wrong_type (r, t.second->vtype)));
            over.set (dotted (t.first), e);
            break;
        }
        default:
        {
            what = "bad:form";
            auto& t = kv[r.below (kv.size ())];
            e.set ("version", JV::S (v.first)); e.set ("value", json_of (t.second->defs.back ().v));
            switch (r.below (6))
            {
            case 0: e.erase ("version"); break;
            case 1: e.erase ("value"); break;
            case 2: e.set ("version", JV::N ("1")); break;
            case 3: e = JV::S ("text"); break;
            case 4: sync.a[0].erase (r.chance (1, 2) ? "namespace" : "override"); break;
            default: sync.a[0].set (r.chance (1, 2) ? "namespace" : "override", JV::S (r.chance (1, 2) ? "x" : "1.-1")); break;
            }
            over.set (dotted (t.first), e);
        }
        }
        w.c.count (what);
    }
    else if (over.o.empty ()) return some_override (w, m, false);
    JV root = JV::O ();
    root.set ("sync", sync);
    root.set ("override", over);
    if (r.chance (1, 4)) std::reverse (root.o.begin (), root.o.end ());
    jv_text (o.text, root, r.chance (1, 2) ? &r : nullptr);
    return o;
}
static void apply (Case& c, MMold& m, const Over& o)
{
    for (size_t i = 0; i < o.defs.size (); i++)
    {
        auto *e = find_path (m, o.paths[i]);
        if (!e) continue;
        bool done = false;
        for (auto& d : e->defs) if (d.intro == o.defs[i].intro) { d.v = o.defs[i].v; done = true; }
        if (done) { c.count ("default_replaced"); continue; }
        c.count ("default_added");
        if (o.defs[i].intro < e->defs.back ().intro) c.count ("default_added_between");
        e->defs.push_back (o.defs[i]);
        std::sort (e->defs.begin (), e->defs.end (), [] (const MDef& a, const MDef& b) { return a.intro < b.intro; });
    }
}
static void layout (World& w, const std::string& id)
{
    // what lies on disk for one entry
    auto& p = w.at[id];
    auto f = w.mdir + "/" + id + ".json", of = w.mdir + "/" + id + ".o.json";
    mkdirs ((w.mdir + "/" + dir_of (id)));
    if (p.own >= 0) spill (f, w.molds[p.own].text); else unlink (f.c_str ());
    if (p.over) spill (of, p.o.text); else unlink (of.c_str ());
}
static int mold_for (World& w, const std::string& id)
{
    auto& p = w.at[id];
    if (p.own >= 0) return p.own;
    auto n = w.ns.find (dir_of (id));
    return n == w.ns.end () ? -1 : n->second;
}
static void place (World& w, const std::string& id)
{
    Rng& r = w.r;
    auto& p = w.at[id];
    p.own = r.chance (1, 2) ? (int) r.below (w.molds.size ()) : -1;
    p.over = r.chance (2, 5);
    if (p.over)
    {
        int m = mold_for (w, id);
        p.o = some_override (w, w.molds[m < 0 ? 0 : m].m, m >= 0 && r.chance (1, 5));
        if (p.o.bad) w.c.count ("bad_overrides");
    }
}
static void set_namespace (World& w, const std::string& dir)
{
    // an override belongs to the mold it was written for: take those of entries that now get another mold away
    if (w.r.chance (1, 2)) w.ns[dir] = (int) w.r.below (w.molds.size ()); else w.ns.erase (dir);
    mkdirs (w.mdir + "/" + dir);
    auto f = w.mdir + "/" + dir + "__namespace.json";
    if (w.ns.count (dir)) spill (f, w.molds[w.ns[dir]].text); else unlink (f.c_str ());
    for (auto& e : w.at)
        if (dir_of (e.first) == dir && e.second.own < 0 && e.second.over)
        {
            int m = mold_for (w, e.first);
            if (m >= 0) { e.second.o = some_override (w, w.molds[m].m, w.r.chance (1, 6)); if (e.second.o.bad) w.c.count ("bad_overrides"); }
            layout (w, e.first);
        }
}
static void check_one (World& w, const std::string& id)
{
    Case& c = w.c;
    auto& p = w.at[id];
    int k = mold_for (w, id);
    bool nspace = k >= 0 && p.own < 0;
    c.count ("resolved");
    if (k < 0) { c.count ("no_mold"); if (p.over) c.count ("override_without_mold"); }
    else { c.count (nspace ? "namespace_mold" : "own_mold"); if (!nspace && w.ns.count (dir_of (id))) c.count ("own_over_namespace"); }
    if (k < 0 || nspace || p.over) c.nontrivial (id + (k < 0 ? "" : w.molds[k].text) + (p.over ? p.o.text : "") + (nspace ? "n" : ""));
    if (c.verbose && k >= 0 && p.over) c.log ("mold %s", w.molds[k].m.mstr ().c_str ());
    c.log ("entry %s: %s%s%s", id.c_str (), k < 0 ? "no mold" : nspace ? "namespace mold" : "own mold", k < 0 ? "" : strf (" %d", k).c_str (), p.over ? strf (", %s override %s", p.o.bad ? "bad" : "good", p.o.text.c_str ()).c_str () : "");
    disir_error_clear (w.in.p);
    struct disir_mold *mold = nullptr;
    auto st = disir_mold_read (w.in.p, "grp", id.c_str (), &mold);
    if (k < 0)
    {
        if (st == DISIR_STATUS_OK) c.violation ("read:uncovered", "reading the mold of %s, which no mold covers, returned OK", id.c_str ());
        else if (st != DISIR_STATUS_NOT_EXIST && st != DISIR_STATUS_MOLD_MISSING) c.violation ("read:uncovered-status", "reading the mold of %s, which no mold covers, returned %s", id.c_str (), sname (st));
        else if (w.in.error ().empty ()) c.violation ("read:uncovered-silent", "reading the mold of %s, which no mold covers, returned %s without an error text", id.c_str (), sname (st));
    }
    else if (p.over && p.o.bad)
    {
        if (st == DISIR_STATUS_OK) c.violation ("read:bad-override", "reading the mold of %s with the override %s returned OK", id.c_str (), p.o.text.c_str ());
        else if (st != DISIR_STATUS_INVALID_CONTEXT && w.in.error ().empty ()) c.violation ("read:bad-override-silent", "reading the mold of %s with the override %s returned %s without an error text", id.c_str (), p.o.text.c_str (), sname (st));
    }
    else if (st != DISIR_STATUS_OK || !mold) c.violation ("read:status", "reading the mold of %s returned %s: %s", id.c_str (), sname (st), w.in.error ().c_str ());
    else
    {
        MMold want = w.molds[k].m, got;
        if (p.over) { c.count ("overridden"); apply (c, want, p.o); }
        normal (want);
        if (dump_mold (c, mold, got, {Ver {0, 0}, LAST}))
        {
            normal (got);
            auto d = first_difference (want, got);
            if (got.ver != want.ver || !d.empty ()) c.violation (p.over ? "read:override" : nspace ? "read:namespace" : "read:own", "the mold of %s (%s) is not the one expected: %s", id.c_str (), got.ver.str ().c_str (), d.c_str ());
        }
        // configurations of the entry follow that mold
        if (!c.failed && w.r.chance (1, 3))
        {
            auto vs = breakpoints (want);
            MConfig x;
            x.ver = w.r.pick (vs);
            x.root = Node ();
            x.root.section = true;
            x.root.kids = expected_content (want, x.ver);
            auto raw = x.ver.raw ();
            struct disir_config *cfg = nullptr, *back = nullptr;
            st = disir_generate_config_from_mold (mold, &raw, &cfg);
            MConfig y;
            if (cfg && dump_config (c, cfg, y) && !(y.root == x.root) && st == DISIR_STATUS_OK) c.violation ("generate", "the configuration generated for %s at %s differs: %s", id.c_str (), x.ver.str ().c_str (), first_difference (x.root, y.root).c_str ());
            if (cfg && st == DISIR_STATUS_OK && !c.failed && EXPECT_OK (c, disir_config_write (w.in.p, "grp", id.c_str (), cfg)))
            {
                c.count ("config_trips");
                auto st2 = disir_config_read (w.in.p, "grp", id.c_str (), nullptr, &back);
                if (st2 != DISIR_STATUS_OK || !back) c.violation ("config:read", "the configuration written as %s reads back with %s: %s", id.c_str (), sname (st2), w.in.error ().c_str ());
                else
                {
                    struct disir_mold *bm = nullptr;
                    MMold bgot;
                    if (EXPECT_OK (c, disir_config_get_mold (back, &bm)) && bm && dump_mold (c, bm, bgot, {Ver {0, 0}, LAST}))
                    {
                        normal (bgot);
                        auto d = first_difference (want, bgot);
                        if (!d.empty ()) c.violation ("config:mold", "the mold of the configuration read as %s is not the one expected: %s", id.c_str (), d.c_str ());
                    }
                    if (bm) disir_mold_finished (&bm);
                    disir_config_finished (&back);
                }
                disir_config_remove (w.in.p, "grp", id.c_str ());
            }
            if (cfg) disir_config_finished (&cfg);
        }
    }
    if (mold) disir_mold_finished (&mold);
    if (c.failed) return;
    struct disir_entry *q = nullptr;
    st = disir_mold_query (w.in.p, "grp", id.c_str (), &q);
    if ((st == DISIR_STATUS_EXISTS) != (k >= 0)) c.violation ("query", "querying the mold of %s returned %s", id.c_str (), sname (st));
    if (q && k >= 0)
    {
        if (q->de_entry_name != id) c.violation ("query:name", "querying the mold of %s named it %s", id.c_str (), q->de_entry_name);
        if ((bool) q->flag.DE_OVERRIDE != p.over) c.violation ("query:override", "querying the mold of %s gave override %d", id.c_str (), (int) q->flag.DE_OVERRIDE);
        // an entry with an override of its own is not the namespace entry
        if ((bool) q->flag.DE_NAMESPACE_ENTRY != (nspace && !p.over)) c.violation ("query:namespace", "querying the mold of %s gave namespace %d", id.c_str (), (int) q->flag.DE_NAMESPACE_ENTRY);
    }
    if (st == DISIR_STATUS_EXISTS && !q) c.violation ("query:nothing", "querying the mold of %s gave no entry", id.c_str ());
    if (q) disir_entry_finished (&q);
}
static void check_list (World& w)
{
    Case& c = w.c;
    std::multiset<std::string> want, got;
    for (auto& e : w.at)
        if (e.second.own >= 0 || (e.second.over && w.ns.count (dir_of (e.first)))) want.insert (e.first);
    for (auto& n : w.ns) want.insert ((n.first.empty () ? "/" : n.first) + std::string (" (namespace)"));
    struct disir_entry *q = nullptr;
    auto st = disir_mold_entries (w.in.p, "grp", &q);
    if (st != DISIR_STATUS_OK) c.violation ("list:status", "listing the molds returned %s", sname (st));
    while (q) { auto *x = q->next; got.insert (q->de_entry_name + std::string (q->flag.DE_NAMESPACE_ENTRY ? " (namespace)" : "")); disir_entry_finished (&q); q = x; }
    c.count ("listings");
    if (got != want)
    {
        std::string a, b;
        for (auto& x : want) a += x + ", ";
        for (auto& x : got) b += x + ", ";
        c.violation ("list", "the molds listed are %s instead of %s", b.c_str (), a.c_str ());
    }
}
void driver_case (Case& c)
{
    Rng& r = c.r;
    World w (c);
    w.o.depth = (int) r.range (1, 3); w.o.width = (int) r.range (2, 4); w.o.strings = (int) r.below (3); w.o.control_chars = r.chance (1, 2);
    w.base = scratch_dir () + "/r";
    w.mdir = w.base + "/m"; w.cdir = w.base + "/c";
    wipe (w.base);
    mkdirs (w.mdir); mkdirs (w.cdir);
    w.kind = r.chance (1, 2) ? JSON_PLUGIN : TOML_PLUGIN;
    if (w.in.make (c) && w.in.plugin (c, w.kind, "io", "grp", w.cdir, w.mdir))
    {
        for (int k = (int) r.range (2, 4); k-- > 0 && !c.failed;)
        {
            Mold m;
            m.m = gen_mold (r, w.o);
            MEl mark;
            mark.name = "mark_of_this_mold";
            mark.vtype = DISIR_VALUE_TYPE_STRING;
            MDef d; d.intro = Ver {1, 0}; d.v = Val::S (strf ("mold %d", k));
            mark.defs.push_back (d);
            m.m.kids.push_back (mark);
            if (auto *mold = build_mold (c, m.m))
            {
                Mem f;
                if (EXPECT_OK (c, dio_json_serialize_mold (w.in.p, mold, f.f))) { m.text = f.text (); m.m.ver = mold_version (m.m); w.molds.push_back (m); }
                disir_mold_finished (&mold);
            }
        }
        if (!c.failed)
        {
            for (auto *d : DIRS) if (r.chance (1, 2)) { w.ns[d] = (int) r.below (w.molds.size ()); mkdirs (w.mdir + "/" + d); spill (w.mdir + "/" + d + "__namespace.json", w.molds[w.ns[d]].text); }
            for (auto *d : DIRS) for (auto *n : NAMES) { auto id = std::string (d) + n; place (w, id); layout (w, id); }
            for (int round = 0; round < 3 && !c.failed; round++)
            {
                for (auto& e : w.at) { if (c.failed) break; check_one (w, e.first); }
                if (!c.failed) check_list (w);
                if (c.failed) break;
                // the layout changes
                c.count ("layout_changes");
                for (int k = 0; k < 3; k++)
                    if (r.chance (1, 3)) set_namespace (w, DIRS[r.below (5)]);
                    else { auto it = w.at.begin (); std::advance (it, r.below (w.at.size ())); place (w, it->first); layout (w, it->first); }
            }
        }
    }
    w.in.done (c);
    wipe (w.base);
}
