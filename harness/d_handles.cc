// C02: handles outlive what happens around them; destroyed objects refuse everything.
#include "dis.hh"
#include <disir/collection.h>
#include <disir/util.h>
const char *PROPERTY = "C02";
const char *RULE = "one history of acquiring, using, destroying and releasing handles; distinct by the history; non-trivial: at least one object was destroyed while several handles to it or its parts were held";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"acquired", 30000}, {"destroyed", 4000}, {"destroyed_with_handles", 1000}, {"dead_calls", 60000}, {"live_checks", 40000}, {"released_dead", 10000}, {"released_live", 20000},
    {"root_finished_with_handles", 1000}, {"mold_released_early", 500}, {"mold_dead", 500}, {"orphans", 500}, {"collections_over_dead", 500}, {"kept_by_handle", 2000}};
long driver_directed () { return 0; }
void driver_setup () {}

struct Obj
{
    struct disir_context *p = nullptr;
    Obj *up = nullptr;
    bool alive = true, built = true, section = false, mold = false, root = false;
    std::string name;
    Val v;
    const MEl *e = nullptr;
    std::vector<Obj *> kids;          // in the parent, in order
    std::vector<Obj *> pending;       // under construction
};
struct Env
{
    Case& c; Rng& r;
    std::vector<std::unique_ptr<Obj>> objs;
    std::vector<Obj *> hs;            // one per handle held
    std::vector<struct disir_collection *> cols; std::vector<std::vector<Obj *>> colv;
    Ver ver;
    GenOpt o;
    struct disir_mold *mold = nullptr;
    std::vector<struct disir_mold *> molds;
    struct disir_config *cfg = nullptr;
    Obj *root = nullptr, *mroot = nullptr;
    std::string hist;
    bool multi = false;
    Env (Case& c_) : c (c_), r (c_.r) {}
    Obj *make () { objs.emplace_back (new Obj); return objs.back ().get (); }
};
static std::string who (Obj *o) { return (o->up ? who (o->up) + "/" : std::string (o->mold ? "mold" : "config")) + o->name + (o->built ? "" : "*"); }
static void map_tree (Env& e, Obj *o, const MEl *me)
{
    o->e = me;
    if (!o->section) return;
    struct disir_collection *col = nullptr;
    if (!EXPECT_OK (e.c, dc_get_elements (o->p, &col))) return;
    for (auto *h : collect (col))
    {
        auto *k = e.make ();
        k->p = h; k->up = o; k->mold = o->mold; k->name = own_name (h);
        k->section = dc_context_type (h) == DISIR_CONTEXT_SECTION;
        o->kids.push_back (k);
        const MEl *ke = me ? me->find (k->name) : nullptr;
        if (!k->section && !k->mold) get_value (h, ke->vtype, k->v);
        map_tree (e, k, ke);
        dc_putcontext (&h);
    }
    dc_collection_finished (&col);
}
static void kill_tree (Env& e, Obj *o)
{
    o->alive = false;
    for (auto *k : o->kids) kill_tree (e, k);
    for (auto *k : o->pending) { if (k->alive) e.c.count ("orphans"); kill_tree (e, k); }
}
static long held (Env& e, Obj *o) { long n = 0; for (auto *h : e.hs) for (Obj *x = h; x; x = x->up) if (x == o) { n++; break; } return n; }
static void detach (Obj *o)
{
    if (!o->up) return;
    auto rm = [&] (std::vector<Obj *>& v) { v.erase (std::remove (v.begin (), v.end (), o), v.end ()); };
    rm (o->up->kids); rm (o->up->pending);
}
static void check_children (Env& e, Obj *o)
{
    Case& c = e.c;
    if (!o->alive || !o->section || held (e, o) == 0) return;
    bool have = false;
    for (auto *h : e.hs) have |= h == o;
    if (!have) return;
    struct disir_collection *col = nullptr;
    if (!EXPECT_OK (c, dc_get_elements (o->p, &col))) return;
    auto got = collect (col);
    dc_collection_finished (&col);
    std::vector<struct disir_context *> want;
    for (auto *k : o->kids) want.push_back (k->p);
    if (got != want) c.violation ("children", "%s lists %zu elements, expected %zu", who (o).c_str (), got.size (), want.size ());
    for (auto *h : got) dc_putcontext (&h);
    std::map<std::string, unsigned> cnt;
    for (auto *k : o->kids) cnt[k->name]++;
    for (auto& p : cnt)
    {
        struct disir_context *x = nullptr;
        if (dc_find_element (o->p, p.first.c_str (), p.second, &x) != DISIR_STATUS_NOT_EXIST) c.violation ("children:count", "%s finds more than %u %s", who (o).c_str (), p.second, p.first.c_str ());
        if (x) dc_putcontext (&x);
    }
}
static void check_live (Env& e, Obj *o)
{
    Case& c = e.c; Rng& r = e.r;
    c.count ("live_checks");
    if (!o->root)
    {
        const char *p = nullptr; int32_t n = 0;
        if (EXPECT_OK (c, dc_get_name (o->p, &p, &n)) && (std::string (p, n) != o->name)) c.violation ("live:name", "%s reports the name %s", who (o).c_str (), quote (std::string (p, n)).c_str ());
        char *full = nullptr;
        if (EXPECT_OK (c, dc_resolve_root_name (o->p, &full))) free (full);
    }
    if (o->section) { check_children (e, o); return; }
    if (o->mold || !o->e) { enum disir_value_type t; EXPECT_OK (c, dc_get_value_type (o->p, &t)); return; }
    Val v;
    if (o->v.type != DISIR_VALUE_TYPE_UNKNOWN && EXPECT_OK (c, get_value (o->p, o->e->vtype, v)) && v != o->v) c.violation ("live:value", "%s holds %s, expected %s", who (o).c_str (), v.str ().c_str (), o->v.str ().c_str ());
    if (r.chance (1, 2))
    {
        v = gen_accepted (r, *o->e, e.ver, e.o);
        auto st = set_value (o->p, v);
        if (st != DISIR_STATUS_OK) c.violation ("live:set", "setting %s to %s returned %s", who (o).c_str (), v.str ().c_str (), sname (st));
        o->v = v;
    }
}
// every kind of call on a destroyed object
static void check_dead (Env& e, Obj *o)
{
    Case& c = e.c; Rng& r = e.r;
    auto *h = o->p;
    disir_version v {1, 0};
    struct disir_context *x = nullptr;
    struct disir_collection *col = nullptr;
    const char *s = nullptr; int32_t n = 0;
    enum disir_status st = DISIR_STATUS_OK;
    const char *what = "";
    int op = (int) r.below (30);
    double d; int64_t i; uint8_t b; char buf[64];
#define T(call) what = #call; st = call; break
    switch (op)
    {
    case 0: T (dc_get_name (h, &s, &n));
    case 1: T (dc_set_name (h, "abc", 3));
    case 2: T (dc_get_elements (h, &col));
    case 3: T (dc_find_element (h, "abc", 0, &x));
    case 4: T (dc_find_elements (h, "abc", &col));
    case 5: T (dc_begin (h, DISIR_CONTEXT_KEYVAL, &x));
    case 6: T (dc_begin (h, DISIR_CONTEXT_SECTION, &x));
    case 7: T (dc_begin (h, DISIR_CONTEXT_DOCUMENTATION, &x));
    case 8: T (dc_set_value_string (h, "abc", 3));
    case 9: T (dc_set_value_integer (h, 3));
    case 10: T (dc_get_value_integer (h, &i));
    case 11: T (dc_get_value_string (h, &s, &n));
    case 12: T (dc_get_value_float (h, &d));
    case 13: T (dc_get_value_boolean (h, &b));
    case 14: T (dc_get_value (h, 64, buf, &n));
    case 15: T (dc_set_value (h, "3", 1));
    case 16: T (dc_add_documentation (h, "abc", 3));
    case 17: T (dc_get_documentation (h, &v, &s, &n));
    case 18: T (dc_add_introduced (h, &v));
    case 19: T (dc_add_deprecated (h, &v));
    case 20: T (dc_get_introduced (h, &v));
    case 21: T (dc_get_deprecated (h, &v));
    case 22: T (dc_add_default_integer (h, 3, &v));
    case 23: T (dc_get_default_contexts (h, &col));
    case 24: T (dc_restriction_collection (h, &col));
    case 25: T (dc_finalize_keep_reference (h));
    case 26: { char *f = nullptr; T (dc_resolve_root_name (h, &f)); }
    case 27: { Obj *q = r.pick (e.hs); struct disir_diff_report *rep = nullptr; what = "dc_compare"; st = r.chance (1, 2) ? dc_compare (h, q->p, &rep) : dc_compare (q->p, h, &rep); if (rep) c.violation ("dead:report", "comparing a destroyed object gave a report"); break; }
    case 28: T (dc_keyval_set_default (h, nullptr));
    default: T (dc_set_value_type (h, DISIR_VALUE_TYPE_INTEGER));
    }
    c.count ("dead_calls");
    if (st != DISIR_STATUS_DESTROYED_CONTEXT) c.violation (strf ("dead:%s", std::string (what).substr (0, std::string (what).find (' ')).c_str ()), "%s on the destroyed %s returned %s", what, who (o).c_str (), sname (st));
    if (x || col || (op < 5 && s)) c.violation ("dead:result", "%s on the destroyed %s produced something", what, who (o).c_str ());
}
static void acquire (Env& e)
{
    Case& c = e.c; Rng& r = e.r;
    auto *o = r.pick (e.hs);
    if (!o->alive || !o->section) return;
    if (r.chance (1, 6))
    {
        struct disir_collection *col = nullptr;
        if (!EXPECT_OK (c, dc_get_elements (o->p, &col))) return;
        if (e.cols.size () < 4 && r.chance (1, 2)) { e.cols.push_back (col); e.colv.push_back (o->kids); return; }
        auto got = collect (col);
        dc_collection_finished (&col);
        for (size_t i = 0; i < got.size (); i++)
        {
            if (i < o->kids.size () && got[i] == o->kids[i]->p && e.hs.size () < 60) { e.hs.push_back (o->kids[i]); c.count ("acquired"); }
            else dc_putcontext (&got[i]);
        }
        return;
    }
    if (o->kids.empty ()) return;
    size_t at = r.below (o->kids.size ());
    auto *k = o->kids[at];
    unsigned idx = 0;
    for (size_t i = 0; i < at; i++) idx += o->kids[i]->name == k->name;
    struct disir_context *x = nullptr;
    auto st = dc_find_element (o->p, k->name.c_str (), idx, &x);
    if (st != DISIR_STATUS_OK || x != k->p) { c.violation ("find", "%s@%u in %s: %s", k->name.c_str (), idx, who (o).c_str (), sname (st)); if (x) dc_putcontext (&x); return; }
    e.hs.push_back (k);
    c.count ("acquired");
}
static void begin (Env& e)
{
    Case& c = e.c; Rng& r = e.r;
    auto *o = r.pick (e.hs);
    if (!o->alive || !o->section || !o->e || o->e->kids.empty () || o->mold || e.hs.size () > 60) return;
    auto& me = r.pick (o->e->kids);
    auto l = limits (me, e.ver);
    long cnt = 0;
    for (auto *k : o->kids) cnt += k->name == me.name;
    for (auto *k : o->pending) cnt += k->name == me.name;
    if (!l.active || (l.hi != 0 && cnt >= l.hi)) return;
    struct disir_context *x = nullptr;
    if (!EXPECT_OK (c, dc_begin (o->p, me.section ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &x))) return;
    auto *k = e.make ();
    k->p = x; k->up = o; k->built = false; k->section = me.section; k->name = me.name; k->e = &me;
    o->pending.push_back (k);
    e.hs.push_back (k);
    EXPECT_OK (c, dc_set_name (x, me.name.c_str (), (int32_t) me.name.size ()));
    if (!me.section) { k->v = gen_accepted (r, me, e.ver, e.o); EXPECT_OK (c, set_value (x, k->v)); }
    c.log ("begin %s", who (k).c_str ());
}
static void finish (Env& e)
{
    Case& c = e.c; Rng& r = e.r;
    auto *o = r.pick (e.hs);
    if (!o->alive || o->built) return;
    std::set<std::string> bad;
    if (o->section)
    {
        if (!o->pending.empty ()) return;
        std::function<Node (Obj *)> node = [&] (Obj *x) { Node n; n.name = x->name; n.section = x->section; n.v = x->v; for (auto *k : x->kids) n.kids.push_back (node (k)); return n; };
        invalid_parts (*o->e, e.ver, node (o), "", bad);
        if (!bad.empty ()) return;
    }
    c.log ("finalize %s", who (o).c_str ());
    auto st = dc_finalize_keep_reference (o->p);
    if (st != DISIR_STATUS_OK) { c.violation ("finalize", "completing %s returned %s", who (o).c_str (), sname (st)); return; }
    detach (o);
    o->up->kids.push_back (o);
    o->built = true;
    e.hist += "f";
}
static void destroy (Env& e)
{
    Case& c = e.c; Rng& r = e.r;
    size_t i = r.below (e.hs.size ());
    auto *o = e.hs[i];
    if (!o->alive || o->root || o->mold) return;
    long h = held (e, o);
    c.log ("destroy %s with %ld handles on it or its parts", who (o).c_str (), h);
    auto *x = o->p;
    if (!EXPECT_OK (c, dc_destroy (&x))) return;
    if (x) c.violation ("destroy:handle", "dc_destroy left the handle");
    e.hs.erase (e.hs.begin () + i);
    kill_tree (e, o);
    detach (o);
    c.count ("destroyed");
    e.hist += strf ("d%ld", h);
    if (h > 1) { c.count ("destroyed_with_handles"); e.multi = true; }
    if (o->up) check_children (e, o->up);
}
static void release (Env& e, size_t i)
{
    Case& c = e.c;
    auto *o = e.hs[i];
    auto *x = o->p;
    bool last = true;
    for (size_t j = 0; j < e.hs.size (); j++) last &= j == i || e.hs[j] != o;
    e.hs.erase (e.hs.begin () + i);
    enum disir_status st;
    if (!o->alive && o->built) { st = e.r.chance (1, 2) ? dc_putcontext (&x) : dc_destroy (&x); c.count ("released_dead"); }
    else if (!o->built)
    {
        // the handle of an object under construction is its owner
        st = dc_destroy (&x);
        kill_tree (e, o);
        detach (o);
    }
    else { st = dc_putcontext (&x); c.count ("released_live"); if (!last) c.count ("kept_by_handle"); }
    if (st != DISIR_STATUS_OK) c.violation ("release", "releasing %s returned %s", who (o).c_str (), sname (st));
    if (x) c.violation ("release:handle", "releasing left the handle");
    e.hist += o->alive ? "r" : "R";
}
static void collections (Env& e)
{
    Case& c = e.c; Rng& r = e.r;
    if (e.cols.empty ()) return;
    size_t i = r.below (e.cols.size ());
    if (r.chance (1, 3)) { dc_collection_finished (&e.cols[i]); e.cols.erase (e.cols.begin () + i); e.colv.erase (e.colv.begin () + i); return; }
    EXPECT_OK (c, dc_collection_reset (e.cols[i]));
    std::vector<struct disir_context *> want;
    bool dead = false;
    for (auto *o : e.colv[i]) { if (o->alive) want.push_back (o->p); else dead = true; }
    if (dead) c.count ("collections_over_dead");
    if (dc_collection_size (e.cols[i]) != (int32_t) want.size ()) c.violation ("collection:size", "%d, expected %zu", dc_collection_size (e.cols[i]), want.size ());
    auto got = collect (e.cols[i]);
    if (got != want) c.violation ("collection", "a collection yields %zu elements, expected %zu", got.size (), want.size ());
    for (auto *h : got) dc_putcontext (&h);
}
void driver_case (Case& c)
{
    Rng& r = c.r;
    Env e (c);
    e.o.strings = (int) r.below (3);
    e.o.depth = (int) r.range (1, 4);
    e.o.docs = r.chance (1, 2);
    MMold m = gen_mold (r, e.o);
    c.log ("%s", m.mstr ().substr (0, 4000).c_str ());
    e.mold = build_mold (c, m);
    if (!e.mold) return;
    MConfig mc;
    mc.ver = e.ver = r.pick (breakpoints (m));
    mc.root = gen_config (r, m, mc.ver, e.o);
    e.cfg = build_config (c, e.mold, mc);
    if (!e.cfg) { disir_mold_finished (&e.mold); return; }
    auto root = [&] (struct disir_context *p, bool mold) {
        auto *o = e.make ();
        o->p = p; o->mold = mold; o->root = true; o->section = true;
        map_tree (e, o, &m);
        e.hs.push_back (o);
        return o;
    };
    e.root = root (dc_config_getcontext (e.cfg), false);
    bool with_mold = r.chance (1, 2);
    if (with_mold) e.mroot = root (dc_mold_getcontext (e.mold), true);
    e.molds.push_back (e.mold);
    e.mold = nullptr;
    auto mold_gone = [&] {
        if (!e.molds.empty () || e.cfg) return;
        if (e.mroot && e.mroot->alive) { kill_tree (e, e.mroot); c.count ("mold_dead"); }
    };
    long steps = r.range (20, 160);
    for (long i = 0; i < steps && !c.failed; i++)
    {
        if (e.hs.empty ()) break;
        switch (r.below (16))
        {
        case 0: case 1: case 2: acquire (e); break;
        case 3: begin (e); break;
        case 4: finish (e); break;
        case 5: if (r.chance (1, 2)) destroy (e); break;
        case 6: case 7: { auto *o = r.pick (e.hs); if (r.chance (1, 2)) { for (auto *x : e.hs) if (!x->alive && r.chance (1, 3)) o = x; } if (!o->alive) for (int k = 0; k < 4 && !c.failed; k++) check_dead (e, o); else check_live (e, o); break; }
        case 8: case 9: case 10: { auto *o = r.pick (e.hs); if (o->alive) check_live (e, o); else check_dead (e, o); break; }
        case 11: collections (e); break;
        case 12:
            if (e.cfg && r.chance (1, 4)) { struct disir_mold *x = nullptr; if (EXPECT_OK (c, disir_config_get_mold (e.cfg, &x))) e.molds.push_back (x); }
            else if (!e.molds.empty () && r.chance (1, 4))
            {
                auto *x = e.molds.back ();
                e.molds.pop_back ();
                EXPECT_OK (c, disir_mold_finished (&x));
                if (e.cfg && e.molds.empty ()) c.count ("mold_released_early");
                mold_gone ();
            }
            break;
        case 13:
            if (e.cfg && r.chance (1, 12))
            {
                c.log ("config finished with %zu handles", e.hs.size ());
                if (held (e, e.root) > 1) { c.count ("root_finished_with_handles"); e.multi = true; }
                EXPECT_OK (c, disir_config_finished (&e.cfg));
                kill_tree (e, e.root);
                e.hist += "F";
                mold_gone ();
            }
            break;
        default: if (e.hs.size () > 2) { size_t k = r.below (e.hs.size ()); if (e.hs[k] != e.root && e.hs[k] != e.mroot) release (e, k); else if (r.chance (1, 10)) release (e, k); }
        }
    }
    // everything goes, in any order
    int parts = 3;
    bool done_cfg = !e.cfg;
    while (parts > 0 && !c.failed)
    {
        parts = (!e.hs.empty ()) + (e.cfg != nullptr) + (!e.molds.empty ()) + (!e.cols.empty ());
        switch (r.below (8))
        {
        case 0: if (e.cfg) { if (held (e, e.root) > 1) { c.count ("root_finished_with_handles"); e.multi = true; } EXPECT_OK (c, disir_config_finished (&e.cfg)); kill_tree (e, e.root); mold_gone (); } break;
        case 1: if (!e.molds.empty ()) { auto *x = e.molds.back (); e.molds.pop_back (); EXPECT_OK (c, disir_mold_finished (&x)); mold_gone (); } break;
        case 2: if (!e.cols.empty ()) collections (e); break;
        case 3: if (!e.hs.empty ()) { auto *o = r.pick (e.hs); if (o->alive) check_live (e, o); else check_dead (e, o); } break;
        default: if (!e.hs.empty ()) release (e, r.below (e.hs.size ()));
        }
    }
    (void) done_cfg;
    if (c.failed) { c.no_leak_check = true; return; }
    if (e.multi) c.nontrivial (e.hist + m.mstr ());
    if (c.no % 401 == 2) c.sample (e.hist.substr (0, 300));
}
