// C12: reported full names address the elements that report them.
#include "dis.hh"
const char *PROPERTY = "C12";
const char *RULE = "one configuration or mold whose every element was asked for its full name; distinct by the set of names; non-trivial: nested or repeated elements";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"names", 100000}, {"resolved_back", 80000}, {"indexed", 20000}, {"deep", 3000}, {"index_ge_10", 500}, {"mold_names", 20000},
    {"constructing", 5000}, {"after_removal", 3000}, {"value_by_name", 10000}, {"long_names", 300}};
long driver_directed () { return 0; }
void driver_setup () {}

static std::string name_of (Case& c, struct disir_context *h)
{
    char *p = nullptr;
    if (!EXPECT_OK (c, dc_resolve_root_name (h, &p)) || !p) return "";
    std::string s = p;
    free (p);
    c.count ("names");
    return s;
}
// follows a full name by name and index
static struct disir_context *follow (struct disir_context *root, const std::string& full, std::string& why)
{
    struct disir_context *at = root;
    size_t i = 0;
    for (;;)
    {
        size_t e = full.find ('.', i);
        std::string t = full.substr (i, e == std::string::npos ? e : e - i);
        size_t a = t.find ('@');
        unsigned idx = 0;
        if (a != std::string::npos)
        {
            if (t.find_first_not_of ("0123456789", a + 1) != std::string::npos || a + 1 == t.size ()) { why = "malformed index"; if (at != root) dc_putcontext (&at); return nullptr; }
            idx = (unsigned) atol (t.c_str () + a + 1);
        }
        struct disir_context *next = nullptr;
        auto st = dc_find_element (at, t.substr (0, a).c_str (), idx, &next);
        if (at != root) dc_putcontext (&at);
        if (st != DISIR_STATUS_OK || !next) { why = strf ("%s at %s", sname (st), t.c_str ()); return nullptr; }
        at = next;
        if (e == std::string::npos) return at;
        i = e + 1;
    }
}
struct Walk
{
    std::set<std::string> seen;
    std::string all;
    long indexed = 0, deep = 0;
};
static void check_all (Case& c, struct disir_context *root, struct disir_context *at, const std::string& pre, int depth, Walk& w, bool mold)
{
    struct disir_collection *col = nullptr;
    if (!EXPECT_OK (c, dc_get_elements (at, &col))) return;
    std::map<std::string, int> idx;
    for (auto *h : collect (col))
    {
        auto own = own_name (h);
        int i = idx[own]++;
        std::string want = (pre.empty () ? "" : pre + ".") + own + (i ? strf ("@%d", i) : "");
        if (!c.failed)
        {
            auto got = name_of (c, h);
            if (!w.seen.insert (got).second) c.violation ("duplicate", "two elements report the name %s", got.c_str ());
            if (got != want) c.violation ("name", "element %s reports the name %s", want.c_str (), got.c_str ());
            std::string why;
            auto *back = follow (root, got, why);
            if (back != h) c.violation ("follow", "the name %s %s", got.c_str (), back ? "leads to another element" : why.c_str ());
            else c.count ("resolved_back");
            if (back) dc_putcontext (&back);
            if (got.find ('@') != std::string::npos) { w.indexed++; c.count ("indexed"); }
            if (i >= 10) c.count ("index_ge_10");
            if (depth >= 4) { w.deep++; c.count ("deep"); }
            if (got.size () > 300) c.count ("long_names");
            if (mold) c.count ("mold_names");
            w.all += got + "\n";
            if (dc_context_type (h) == DISIR_CONTEXT_SECTION) check_all (c, root, h, want, depth + 1, w, mold);
        }
        dc_putcontext (&h);
    }
    dc_collection_finished (&col);
}
// every entry gets a value of its own through its reported name; exactly that entry must take it
static void check_values (Case& c, struct disir_config *cfg, struct disir_context *root, struct disir_context *at, long& serial, const MEl& m, std::vector<std::pair<struct disir_context *, int64_t>>& put_)
{
    struct disir_collection *col = nullptr;
    if (!EXPECT_OK (c, dc_get_elements (at, &col))) return;
    for (auto *h : collect (col))
    {
        auto *e = m.find (own_name (h));
        if (c.failed || !e) { dc_putcontext (&h); continue; }
        if (e->section) { check_values (c, cfg, root, h, serial, *e, put_); dc_putcontext (&h); continue; }
        bool restricted = false;
        for (auto& x : e->res) restricted |= x.value ();
        if (e->vtype != DISIR_VALUE_TYPE_INTEGER || restricted) { dc_putcontext (&h); continue; }
        auto n = name_of (c, h);
        serial++;
        auto st = c.r.chance (1, 2) ? disir_config_set_keyval_integer (cfg, serial, "%s", n.c_str ()) : dc_config_set_keyval_integer (root, serial, "%s", n.c_str ());
        if (st != DISIR_STATUS_OK) c.violation ("set-by-name", "setting %s by its reported name returned %s", n.c_str (), sname (st));
        put_.push_back ({h, serial});
    }
    dc_collection_finished (&col);
}
static bool remove_some (Case& c, struct disir_context *at, const MEl& m)
{
    struct disir_collection *col = nullptr;
    if (!EXPECT_OK (c, dc_get_elements (at, &col))) return false;
    bool any = false;
    for (auto *h : collect (col))
    {
        if (c.r.chance (1, 4))
        {
            // the walk's own handle goes with the element
            EXPECT_OK (c, dc_destroy (&h));
            if (h) dc_putcontext (&h);
            any = true;
            continue;
        }
        if (dc_context_type (h) == DISIR_CONTEXT_SECTION) any |= remove_some (c, h, m);
        dc_putcontext (&h);
    }
    dc_collection_finished (&col);
    return any;
}
// names asked for while the element and its ancestors are under construction
static bool build_named (Case& c, struct disir_context *parent, const Node& n, const std::string& pre, std::map<std::string, int>& idx)
{
    struct disir_context *h = nullptr;
    if (!EXPECT_OK (c, dc_begin (parent, n.section ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &h))) return false;
    bool ok = EXPECT_OK (c, dc_set_name (h, n.name.c_str (), (int32_t) n.name.size ()));
    int i = idx[n.name]++;
    std::string want = (pre.empty () ? "" : pre + ".") + n.name + (i ? strf ("@%d", i) : "");
    auto ask = [&] (const char *when) {
        auto got = name_of (c, h);
        c.count ("constructing");
        if (got != want) c.violation (strf ("name:%s", when), "%s, element %s reports the name %s", when, want.c_str (), got.c_str ());
    };
    if (ok) ask ("while under construction");
    if (ok && !n.section) ok = EXPECT_OK (c, set_value (h, n.v));
    std::map<std::string, int> sub;
    for (auto& k : n.kids) ok = ok && !c.failed && build_named (c, h, k, want, sub);
    ok = ok && !c.failed;
    if (ok && c.r.chance (1, 2))
    {
        ok = EXPECT_OK (c, dc_finalize_keep_reference (h));
        if (ok) ask ("just completed");
        if (ok) dc_putcontext (&h);
    }
    else if (ok) ok = EXPECT_OK (c, dc_finalize (&h));
    if (!ok && h) dc_destroy (&h);
    return ok;
}
// instances beyond what gen_config makes: siblings in numbers
static void multiply (Rng& r, const MEl& m, Ver v, Node& n, const GenOpt& o, int budget)
{
    for (auto& k : m.kids)
    {
        auto l = limits (k, v);
        if (!l.active || (l.hi != 0 && l.hi < 12)) continue;
        int cnt = 0;
        for (auto& x : n.kids) cnt += x.name == k.name;
        int to = l.hi ? std::min (l.hi, 14) : (r.chance (1, 4) ? 40 : 13);
        for (; cnt < to && budget > 0; cnt++, budget--)
        {
            if (k.section) n.kids.push_back (gen_config (r, k, v, o));
            else { Node x; x.name = k.name; x.v = gen_accepted (r, k, v, o); n.kids.push_back (x); }
        }
    }
}
static MMold deep_mold (Rng& r, int depth)
{
    MMold m;
    MEl *at = &m;
    m.ver = {1, 0};
    for (int i = 0; i < depth; i++)
    {
        MEl kv; kv.name = r.chance (1, 3) ? gen_name (r) : "k"; kv.vtype = DISIR_VALUE_TYPE_INTEGER; kv.defs.push_back ({{1, 0}, Val::I (i)});
        MEl s; s.section = true; s.name = r.chance (1, 4) ? std::string (r.range (1, 90), (char) ('a' + r.below (26))) : strf ("s%d", (int) r.below (3));
        MRes x; x.type = DISIR_RESTRICTION_INC_ENTRY_MAX; x.intro = {1, 0}; x.hi = 0;
        if (r.chance (1, 2)) { s.res.push_back (x); kv.res.push_back (x); }
        if (kv.name == s.name) kv.name += "x";
        bool first = r.chance (1, 2);
        if (first) at->kids.push_back (kv);
        at->kids.push_back (s);
        if (!first) at->kids.push_back (kv);
        at = &at->kids[first ? 1 : 0];
    }
    MEl kv; kv.name = "leaf"; kv.vtype = DISIR_VALUE_TYPE_INTEGER; kv.defs.push_back ({{1, 0}, Val::I (7)});
    at->kids.push_back (kv);
    return m;
}
static Node chain (Rng& r, const MEl& m, int& extra)
{
    Node n; n.section = true; n.name = m.name;
    for (auto& k : m.kids)
    {
        bool many = !k.res.empty () && extra > 0 && r.chance (1, 3);
        int cnt = many ? (int) r.range (2, 3) : 1;
        if (many) extra--;
        for (int i = 0; i < cnt; i++)
        {
            if (k.section) n.kids.push_back (chain (r, k, extra));
            else { Node x; x.name = k.name; x.v = Val::I (r.range (0, 9)); n.kids.push_back (x); }
        }
    }
    return n;
}
void driver_case (Case& c)
{
    Rng& r = c.r;
    GenOpt o;
    o.strings = 0;
    o.depth = (int) r.range (1, 5);
    o.width = o.depth > 4 ? 2 : 4;
    o.docs = false;
    bool deep = r.chance (1, 12);
    MMold m = deep ? deep_mold (r, (int) r.range (5, 34)) : gen_mold (r, o);
    c.log ("%s", m.mstr ().substr (0, 6000).c_str ());
    auto *mold = build_mold (c, m);
    if (!mold) return;
    Walk w;
    auto *mctx = dc_mold_getcontext (mold);
    check_all (c, mctx, mctx, "", 1, w, true);
    dc_putcontext (&mctx);
    auto vs = breakpoints (m);
    MConfig mc;
    mc.ver = r.pick (vs);
    int extra = 4;
    mc.root = deep ? chain (r, m, extra) : gen_config (r, m, mc.ver, o);
    mc.root.section = true;
    if (!deep && r.chance (1, 3)) multiply (r, m, mc.ver, mc.root, o, 120);
    struct disir_context *h = nullptr;
    struct disir_config *cfg = nullptr;
    auto raw = mc.ver.raw ();
    bool ok = !c.failed && EXPECT_OK (c, dc_config_begin (mold, &h)) && EXPECT_OK (c, dc_set_version (h, &raw));
    std::map<std::string, int> idx;
    for (auto& k : mc.root.kids) ok = ok && !c.failed && build_named (c, h, k, "", idx);
    if (ok && !c.failed) EXPECT_OK (c, dc_config_finalize (&h, &cfg));
    if (h) dc_destroy (&h);
    if (cfg)
    {
        auto *ctx = dc_config_getcontext (cfg);
        Walk cw;
        check_all (c, ctx, ctx, "", 1, cw, false);
        if (cw.indexed || cw.deep) c.nontrivial (cw.all);
        if (c.no % 211 == 3) c.sample (cw.all.substr (0, 500));
        long serial = 1000000;
        std::vector<std::pair<struct disir_context *, int64_t>> put_;
        check_values (c, cfg, ctx, ctx, serial, m, put_);
        for (auto& p : put_)
        {
            int64_t got = 0;
            if (!c.failed && EXPECT_OK (c, dc_get_value_integer (p.first, &got)) && got != p.second) c.violation ("value-by-name", "the value set by an entry's reported name (%lld) is not the entry's (%lld)", (long long) p.second, (long long) got);
            c.count ("value_by_name");
            dc_putcontext (&p.first);
        }
        if (!c.failed && remove_some (c, ctx, m))
        {
            Walk after;
            check_all (c, ctx, ctx, "", 1, after, false);
            c.count ("after_removal", (long) after.seen.size ());
        }
        dc_putcontext (&ctx);
        disir_config_finished (&cfg);
    }
    disir_mold_finished (&mold);
}
