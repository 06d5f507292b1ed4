// C13: element order, lookup and collections, against a vector model.
#include "dis.hh"
#include <disir/collection.h>
const char *PROPERTY = "C13";
const char *RULE = "one history of additions, removals, lookups and collection operations on one parent; distinct by the history; non-trivial: at least one removal and one repeated name";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"adds", 100000}, {"removals", 30000}, {"lookups", 40000}, {"lookup_beyond", 5000}, {"listings", 5000}, {"list_by_name", 20000}, {"collection_next", 40000}, {"collection_exhausted", 5000},
    {"collection_reset", 2000}, {"collection_push", 3000}, {"next_after_removal", 3000}, {"many_names", 20}, {"in_mold", 300}, {"in_section", 500}, {"constructing", 1000}, {"finalized", 1000}};
long driver_directed () { return 0; }
void driver_setup () {}

struct El { struct disir_context *h; std::string name; };      // h: our own reference
struct Col { struct disir_collection *col; std::vector<struct disir_context *> v; size_t it = 0; bool removed = false; };

struct Env
{
    Case& c;
    struct disir_context *parent;
    bool mold;
    std::vector<El> els;
    std::vector<Col> cols;
    std::vector<struct disir_context *> dead;
    std::vector<std::string> names;
    std::string hist;
    long removals = 0, repeats = 0;
    Env (Case& c_) : c (c_) {}
};
static std::string label (Env& e, struct disir_context *h)
{
    for (size_t i = 0; i < e.els.size (); i++) if (e.els[i].h == h) return strf ("#%zu(%s)", i, e.els[i].name.c_str ());
    return h ? "a removed element" : "none";
}
static void check_list (Env& e, std::vector<struct disir_context *> want, struct disir_collection *col, const char *what)
{
    auto got = collect (col);
    if (got != want)
    {
        std::string a, b;
        for (auto *h : want) a += label (e, h) + " ";
        for (auto *h : got) b += label (e, h) + " ";
        e.c.violation (what, "%s: expected %s got %s", what, a.c_str (), b.c_str ());
    }
    for (auto *h : got) dc_putcontext (&h);
}
static std::vector<struct disir_context *> named (Env& e, const std::string& n)
{
    std::vector<struct disir_context *> v;
    for (auto& x : e.els) if (x.name == n) v.push_back (x.h);
    return v;
}
static void full_check (Env& e)
{
    Case& c = e.c;
    struct disir_collection *col = nullptr;
    if (!EXPECT_OK (c, dc_get_elements (e.parent, &col))) return;
    std::vector<struct disir_context *> want;
    for (auto& x : e.els) want.push_back (x.h);
    if (dc_collection_size (col) != (int32_t) want.size ()) c.violation ("listing:size", "%d elements listed, expected %zu", dc_collection_size (col), want.size ());
    check_list (e, want, col, "listing");
    dc_collection_finished (&col);
    c.count ("listings");
    std::set<std::string> ns;
    for (auto& x : e.els) ns.insert (x.name);
    if (e.names.size () < 40) for (auto& n : e.names) ns.insert (n);
    for (auto& n : ns)
    {
        auto w = named (e, n);
        auto st = dc_find_elements (e.parent, n.c_str (), &col);
        auto exp = w.empty () ? DISIR_STATUS_NOT_EXIST : DISIR_STATUS_OK;
        if (st != exp) c.violation ("by-name:status", "listing the %zu elements named %s returned %s", w.size (), n.c_str (), sname (st));
        if (st == DISIR_STATUS_OK)
        {
            if (dc_collection_size (col) != (int32_t) w.size ()) c.violation ("by-name:size", "%d elements named %s, expected %zu", dc_collection_size (col), n.c_str (), w.size ());
            check_list (e, w, col, "by-name");
            dc_collection_finished (&col);
        }
        c.count ("list_by_name");
        if (c.failed) return;
    }
}
static bool add (Env& e, std::vector<El>& open)
{
    Case& c = e.c; Rng& r = c.r;
    // several may be under construction at once: they join the parent in the order of completion
    if (open.empty () || (open.size () < 4 && r.chance (1, 3)))
    {
        El x {nullptr, r.pick (e.names)};
        if (e.mold) { for (auto& y : e.els) if (y.name == x.name) return true; for (auto& y : open) if (y.name == x.name) return true; }
        bool section = x.name[0] == 's';
        if (!EXPECT_OK (c, dc_begin (e.parent, section ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &x.h))) return false;
        bool ok = EXPECT_OK (c, dc_set_name (x.h, x.name.c_str (), (int32_t) x.name.size ()));
        if (ok && !section && e.mold) ok = EXPECT_OK (c, dc_set_value_type (x.h, DISIR_VALUE_TYPE_INTEGER)) && EXPECT_OK (c, add_default (x.h, Val::I (3), {1, 0}));
        if (ok && !section && !e.mold) ok = EXPECT_OK (c, dc_set_value_integer (x.h, (int64_t) r.below (100)));
        open.push_back (x);
        if (!ok) return false;
        if (r.chance (1, 2)) return true;
    }
    size_t i = r.below (open.size ());
    El x = open[i];
    if (r.chance (1, 15))
    {
        open.erase (open.begin () + i);
        return EXPECT_OK (c, dc_destroy (&x.h));
    }
    if (!EXPECT_OK (c, dc_finalize_keep_reference (x.h))) return false;
    open.erase (open.begin () + i);
    if (!named (e, x.name).empty ()) e.repeats++;
    e.els.push_back (x);
    e.hist += "+" + x.name;
    c.count ("adds");
    c.log ("add %s as #%zu", x.name.c_str (), e.els.size () - 1);
    return true;
}
static bool remove (Env& e)
{
    Case& c = e.c; Rng& r = c.r;
    if (e.els.empty ()) return true;
    size_t i = r.below (e.els.size ());
    auto *h = e.els[i].h;
    c.log ("destroy #%zu (%s)", i, e.els[i].name.c_str ());
    e.hist += strf ("-%zu", i);
    e.els.erase (e.els.begin () + i);
    e.removals++;
    c.count ("removals");
    for (auto& k : e.cols)
        for (size_t j = 0; j < k.v.size ();)
            if (k.v[j] == h) { k.v.erase (k.v.begin () + j); if (j < k.it) k.it--; k.removed = true; }
            else j++;
    auto *p = h;
    if (!EXPECT_OK (c, dc_destroy (&p))) return false;
    return true;
}
static void lookup (Env& e)
{
    Case& c = e.c; Rng& r = c.r;
    auto n = r.pick (e.names);
    auto w = named (e, n);
    unsigned idx = (unsigned) r.below (w.size () + 2);
    if (r.chance (1, 60)) idx = r.pick ({0x7fffffffu, 0x80000000u, 0xffffffffu});
    struct disir_context *h = nullptr;
    auto st = dc_find_element (e.parent, n.c_str (), idx, &h);
    c.count ("lookups");
    if (idx < w.size ())
    {
        if (st != DISIR_STATUS_OK || h != w[idx]) c.violation ("lookup", "%s@%u of %zu: %s, %s", n.c_str (), idx, w.size (), sname (st), label (e, h).c_str ());
    }
    else
    {
        c.count ("lookup_beyond");
        if (st != DISIR_STATUS_NOT_EXIST || h) c.violation ("lookup:beyond", "%s@%u of %zu: %s", n.c_str (), idx, w.size (), sname (st));
    }
    if (h) dc_putcontext (&h);
}
static void collection_op (Env& e)
{
    Case& c = e.c; Rng& r = c.r;
    if (e.cols.empty () || (e.cols.size () < 5 && r.chance (1, 10)))
    {
        Col k;
        k.col = nullptr;
        int kind = (int) r.below (3);
        if (kind == 0)
        {
            if (!EXPECT_OK (c, dc_get_elements (e.parent, &k.col))) return;
            for (auto& x : e.els) k.v.push_back (x.h);
        }
        else if (kind == 1)
        {
            auto n = r.pick (e.names);
            if (dc_find_elements (e.parent, n.c_str (), &k.col) != DISIR_STATUS_OK) return;
            k.v = named (e, n);
        }
        else { k.col = dc_collection_create (); if (!k.col) { c.violation ("create", "dc_collection_create returned NULL"); return; } }
        e.cols.push_back (k);
        return;
    }
    size_t i = r.below (e.cols.size ());
    Col& k = e.cols[i];
    switch (r.below (10))
    {
    case 0:
        if (dc_collection_size (k.col) != (int32_t) k.v.size ()) c.violation ("collection:size", "collection size %d, expected %zu", dc_collection_size (k.col), k.v.size ());
        break;
    case 1:
        if (r.chance (2, 3)) { EXPECT_OK (c, dc_collection_reset (k.col)); k.it = 0; c.count ("collection_reset"); e.hist += "r"; }
        else { EXPECT_OK (c, dc_collection_finished (&k.col)); if (k.col) c.violation ("collection:finished", "dc_collection_finished left the pointer"); e.cols.erase (e.cols.begin () + i); }
        break;
    case 2: case 3:
        if (!e.els.empty ())
        {
            auto *h = r.pick (e.els).h;
            if (!EXPECT_OK (c, dc_collection_push_context (k.col, h))) return;
            k.v.push_back (h);
            c.count ("collection_push");
        }
        break;
    default:
    {
        struct disir_context *h = nullptr;
        auto st = dc_collection_next (k.col, &h);
        e.hist += "n";
        if (k.it < k.v.size ())
        {
            if (st != DISIR_STATUS_OK || h != k.v[k.it]) c.violation (k.removed ? "next:after-removal" : "next", "element %zu of %zu: %s, expected %s got %s", k.it, k.v.size (), sname (st), label (e, k.v[k.it]).c_str (), label (e, h).c_str ());
            k.it++;
            c.count ("collection_next");
            if (k.removed) c.count ("next_after_removal");
        }
        else
        {
            c.count ("collection_exhausted");
            if (st != DISIR_STATUS_EXHAUSTED || h) c.violation ("next:exhausted", "past the end: %s", sname (st));
        }
        if (h) dc_putcontext (&h);
    }
    }
}
void driver_case (Case& c)
{
    Rng& r = c.r;
    Env e (c);
    int kind = (int) r.below (5);       // 0,1: root; 2,3: section of a configuration; 4: mold
    e.mold = kind == 4;
    bool many = r.chance (1, 25);
    int nn = many ? (int) r.range (65, 260) : (int) r.range (1, 8);
    for (int i = 0; i < nn; i++) e.names.push_back (strf ("%c%d", r.chance (1, 4) ? 's' : 'k', i));
    if (many) c.count ("many_names");
    // a mold admitting any number of each
    MMold m;
    m.ver = {1, 0};
    auto fill = [&] (MEl& at) {
        for (auto& n : e.names)
        {
            MEl k; k.name = n; k.section = n[0] == 's';
            if (!k.section) { k.vtype = DISIR_VALUE_TYPE_INTEGER; k.defs.push_back ({{1, 0}, Val::I (1)}); }
            MRes lo; lo.type = DISIR_RESTRICTION_INC_ENTRY_MIN; lo.intro = {1, 0}; lo.lo = 0;
            MRes hi; hi.type = DISIR_RESTRICTION_INC_ENTRY_MAX; hi.intro = {1, 0}; hi.hi = 0;
            k.res = {lo, hi};
            at.kids.push_back (k);
        }
    };
    bool section = kind == 2 || kind == 3;
    if (section) { MEl s; s.section = true; s.name = "top"; fill (s); m.kids.push_back (s); }
    else fill (m);
    struct disir_mold *mold = nullptr;
    struct disir_context *root = nullptr;
    struct disir_config *cfg = nullptr;
    struct disir_mold *own = nullptr;
    bool finalized = r.chance (1, 2), done_root = false;
    bool ok = true;
    if (e.mold) ok = EXPECT_OK (c, dc_mold_begin (&root));
    else
    {
        mold = build_mold (c, m);
        ok = mold && EXPECT_OK (c, dc_config_begin (mold, &root));
    }
    if (!ok) return;
    e.parent = root;
    struct disir_context *sec = nullptr;
    if (section)
    {
        ok = EXPECT_OK (c, dc_begin (root, DISIR_CONTEXT_SECTION, &sec)) && EXPECT_OK (c, dc_set_name (sec, "top", 3));
        e.parent = sec;
        c.count ("in_section");
        if (ok && finalized) ok = EXPECT_OK (c, dc_finalize_keep_reference (sec));
    }
    else if (finalized && !e.mold)
    {
        ok = EXPECT_OK (c, dc_config_finalize (&root, &cfg));
        if (ok) { e.parent = root = dc_config_getcontext (cfg); done_root = true; }
    }
    if (e.mold) { finalized = false; c.count ("in_mold"); }
    c.count (finalized ? "finalized" : "constructing");
    int steps = many ? 700 : (int) r.range (10, 160);
    int addp = (int) r.range (3, 6), remp = (int) r.range (1, 2);
    std::vector<El> open;
    for (int i = 0; ok && i < steps && !c.failed; i++)
    {
        int k = (int) r.below (13);
        if (k < addp) ok = add (e, open);
        else if (k < addp + remp) ok = remove (e);
        else if (k < addp + remp + 2) lookup (e);
        else collection_op (e);
        if (ok && r.chance (1, 20)) full_check (e);
    }
    if (ok && !c.failed) full_check (e);
    for (auto& x : open) dc_destroy (&x.h);
    // the completed object keeps the order
    if (ok && !c.failed && e.mold && !e.els.empty ())
    {
        ok = EXPECT_OK (c, dc_mold_finalize (&root, &own));
        if (ok) { e.parent = root = dc_mold_getcontext (own); done_root = true; full_check (e); }
    }
    if (ok && !c.failed && !e.mold && !done_root)
    {
        if (section && !finalized) ok = EXPECT_OK (c, dc_finalize_keep_reference (sec));
        if (ok) ok = EXPECT_OK (c, dc_config_finalize (&root, &cfg));
        if (ok) { root = dc_config_getcontext (cfg); if (!section) e.parent = root; done_root = true; full_check (e); }
    }
    if (e.removals && (e.repeats || e.mold)) c.nontrivial (e.hist);
    if (c.no % 401 == 2) c.sample (e.hist.substr (0, 300));
    bool late = r.chance (1, 2);
    if (!late) for (auto& k : e.cols) dc_collection_finished (&k.col);
    for (auto& x : e.els) if (r.chance (1, 2) || 1) dc_putcontext (&x.h);
    if (sec) { if (ok) dc_putcontext (&sec); else dc_destroy (&sec); }
    if (done_root) dc_putcontext (&root); else if (root) dc_destroy (&root);
    if (cfg) disir_config_finished (&cfg);
    if (own) disir_mold_finished (&own);
    if (mold) disir_mold_finished (&mold);
    // collections outlive everything they hold
    if (late) for (auto& k : e.cols) dc_collection_finished (&k.col);
}
