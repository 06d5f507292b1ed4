// C01: arbitrary histories of API calls over live handles; the oracles are the sanitizers, the absence of
// aborts, and the allocation account after every handle has been released.
#include "dis.hh"
#include <disir/util.h>
const char *PROPERTY = "C01";
const char *RULE = "one history of API calls; distinct by the sequence of (operation, object kind, status); non-trivial: at least 8 calls succeeded on at least 3 kinds of object";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"calls", 20000}, {"calls_ok", 5000}, {"calls_refused", 3000}, {"on_destroyed", 100}, {"deep_nesting", 3}, {"configs", 100}, {"molds", 100}};
static const int NDIRECT = 40;
long driver_directed () { return NDIRECT; }
void driver_setup () {}
static void (*g_api_ready) () = nullptr;   // called when a history's fixed beginning is over (see d_oom.cc)

// owner: the handle of an object under construction, which is finalized or destroyed but not put back
struct H { struct disir_context *c; bool root; bool owner; };
struct S
{
    Case& c; Rng& r;
    std::vector<H> hs;
    std::vector<struct disir_mold *> molds;
    std::vector<struct disir_config *> configs;
    std::vector<struct disir_collection *> cols;
    std::vector<struct disir_update *> ups;
    GenOpt o;
    std::vector<std::string> names;
    uint64_t sig = 1469598103934665603ull;
    int ok = 0;
    std::set<int> kinds;
    S (Case& c_) : c (c_), r (c_.r)
    {
        o.strings = 3; o.finite = true;
        names = {"a", "b", "sec", "sub", "key"};
        if (r.chance (1, 2)) names.push_back (gen_name (r));
        if (r.chance (1, 4)) names.push_back ("UPPER");
        if (r.chance (1, 6)) names.push_back ("a.b@1");
        if (r.chance (1, 10)) names.push_back (std::string (r.range (1, 3000), 'n'));
    }
};

static struct disir_context *any (S& s)
{
    if (s.hs.empty ()) return nullptr;
    // prefer recent handles: histories go deep rather than wide
    size_t n = s.hs.size ();
    size_t i = s.r.chance (1, 2) ? n - 1 - s.r.below (std::min<size_t> (n, 3)) : s.r.below (n);
    return s.hs[i].c;
}
static struct disir_context *of (S& s, std::initializer_list<int> types)
{
    if (s.r.chance (1, 25)) return any (s);
    std::vector<struct disir_context *> v;
    for (auto& h : s.hs) for (int t : types) if ((int) dc_context_type (h.c) == t) v.push_back (h.c);
    if (v.empty ()) return any (s);
    size_t n = v.size ();
    return s.r.chance (2, 3) ? v[n - 1 - s.r.below (std::min<size_t> (n, 3))] : v[s.r.below (n)];
}
static void drop (S& s, struct disir_context *c)
{
    for (size_t i = s.hs.size (); i-- > 0;) if (s.hs[i].c == c) { s.hs.erase (s.hs.begin () + i); return; }
}
static void add (S& s, struct disir_context *c, bool root = false, bool owner = false) { if (c) s.hs.push_back ({c, root, owner}); }
static bool is_owner (S& s, struct disir_context *c) { for (auto& h : s.hs) if (h.c == c && h.owner) return true; return false; }
static void finalized (S& s, struct disir_context *c) { for (auto& h : s.hs) if (h.c == c) h.owner = h.root = false; }
static bool is_root (S& s, struct disir_context *c) { for (auto& h : s.hs) if (h.c == c && h.root) return true; return false; }

static void note (S& s, const char *op, struct disir_context *on, enum disir_status st)
{
    s.c.count ("calls");
    int k = on ? 1 : 0;
    if (st == DISIR_STATUS_OK) { s.ok++; s.c.count ("calls_ok"); }
    else s.c.count ("calls_refused");
    if (st == DISIR_STATUS_DESTROYED_CONTEXT) s.c.count ("on_destroyed");
    s.sig = hash_str (op, s.sig * 31 + st * 7 + k);
    s.c.log ("  -> %s", sname (st));
    const char *e = on ? dc_context_error (on) : nullptr;
    if (e && strlen (e) > 100000000) s.c.log ("long error");
}
static std::string nm (S& s) { return s.r.chance (1, 12) ? gen_string (s.r, s.o) : s.r.pick (s.names); }
static std::string str (S& s) { return s.r.chance (1, 40) ? std::string (s.r.range (100, 5000), 'x') : gen_string (s.r, s.o); }
static double dbl (S& s)
{
    if (s.r.chance (1, 12)) return s.r.pick ({(double) INFINITY, (double) -INFINITY, (double) NAN, 9.3e18, -9.3e18, 1e308});
    return gen_double (s.r, s.o);
}
static Ver ver (S& s) { return s.r.chance (1, 12) ? Ver {(uint32_t) s.r.next (), (uint32_t) s.r.next ()} : s.r.chance (1, 12) ? Ver {0, (uint32_t) s.r.below (3)} : gen_ver (s.r); }
static std::string query (S& s)
{
    std::string q;
    for (int n = (int) s.r.range (1, s.r.chance (1, 15) ? 30 : 3); n > 0; n--)
    {
        q += s.r.pick (s.names);
        if (s.r.chance (1, 2)) q += strf ("@%d", (int) s.r.range (s.r.chance (1, 20) ? -3 : 0, 3));
        if (n > 1) q += ".";
    }
    if (s.r.chance (1, 10)) q = gen_string (s.r, s.o);
    if (s.r.chance (1, 10) && !q.empty ()) q[s.r.below (q.size ())] = "@.%-0 "[s.r.below (6)];
    if (s.r.chance (1, 60)) q = std::string (s.r.range (1000, 5000), 'q') + "." + q;
    return q;
}
#define L(...) s.c.log (__VA_ARGS__)
typedef enum disir_status St;

static void begin_child (S& s, struct disir_context *p, int t)
{
    struct disir_context *h = nullptr;
    L ("begin(%p, type %d)", (void *) p, t);
    auto st = dc_begin (p, (enum disir_context_type) t, &h);
    note (s, "begin", p, st);
    if (st == DISIR_STATUS_OK) add (s, h, false, true);
    else if (h) { s.c.violation ("begin:handle", "dc_begin failed with %s but produced a handle", sname (st)); }
}
static void finalize (S& s, struct disir_context *h)
{
    if (is_root (s, h) && s.r.chance (3, 4)) return;
    auto *p = h;
    L ("finalize(%p %s)", (void *) h, dc_context_type_string (h));
    auto st = dc_finalize (&p);
    note (s, "finalize", p, st);
    if (!p) { finalized (s, h); drop (s, h); }
}
static void use_col (S& s, struct disir_collection *col)
{
    if (!col) return;
    if (s.r.chance (1, 3)) { s.cols.push_back (col); return; }
    struct disir_context *x = nullptr;
    int keep = (int) s.r.below (3);
    while (dc_collection_next (col, &x) == DISIR_STATUS_OK)
    {
        if (keep-- > 0) add (s, x);
        else dc_putcontext (&x);
    }
    dc_collection_finished (&col);
}
#ifndef NOTE_TEXT
#define NOTE_TEXT(s)
#endif
static void free_report (struct disir_diff_report *rep)
{
    if (!rep) return;
    for (int i = 0; i < rep->dr_entries; i++) NOTE_TEXT (rep->dr_diff_string[i]);
    for (int i = 0; i < rep->dr_entries; i++) free (rep->dr_diff_string[i]);
    free (rep->dr_diff_string);
    free (rep);
}
static void op_values (S& s)
{
    auto *h = of (s, {DISIR_CONTEXT_KEYVAL, DISIR_CONTEXT_DEFAULT, DISIR_CONTEXT_DOCUMENTATION});
    if (!h) return;
    St st = DISIR_STATUS_OK;
    Val v = gen_value (s.r, (int) s.r.range (1, 5), s.o);
    switch (s.r.below (9))
    {
    case 0: case 1: case 2:
        if (s.r.chance (1, 2) && dc_value_type (h) >= DISIR_VALUE_TYPE_STRING && dc_value_type (h) <= DISIR_VALUE_TYPE_ENUM) v = gen_value (s.r, dc_value_type (h), s.o);
        if (v.type == DISIR_VALUE_TYPE_FLOAT) v.d = dbl (s);
        L ("set_value(%p, %s)", (void *) h, v.str ().c_str ());
        st = set_value (h, v);
        note (s, "set_value", h, st);
        break;
    case 3:
    {
        std::string t = s.r.chance (1, 2) ? str (s) : s.r.pick ({std::string ("1"), std::string ("true"), std::string ("12.5"), std::string ("-7"), std::string ("99999999999999999999"), std::string ("nan"), std::string ("1e999")});
        L ("set_value_text(%p, %s)", (void *) h, quote (t).c_str ());
        st = dc_set_value (h, t.c_str (), (int32_t) t.size ());
        note (s, "set_value_text", h, st);
        break;
    }
    case 4:
    {
        int t = (int) s.r.range (0, 6);
        L ("set_value_type(%p, %d)", (void *) h, t);
        st = dc_set_value_type (h, (enum disir_value_type) t);
        note (s, "set_value_type", h, st);
        break;
    }
    case 5:
    {
        int32_t n = (int32_t) s.r.range (1, 64), got = 0;
        std::unique_ptr<char[]> b (new char[n]);
        L ("get_value(%p, %d)", (void *) h, n);
        st = dc_get_value (h, n, b.get (), s.r.chance (1, 2) ? &got : nullptr);
        note (s, "get_value", h, st);
        if (st == DISIR_STATUS_OK && strnlen (b.get (), n) == (size_t) n) s.c.violation ("get_value:unterminated", "dc_get_value into %d bytes is not terminated", n);
        break;
    }
    case 6:
    {
        Val out;
        int t = s.r.chance (2, 3) ? (int) dc_value_type (h) : (int) s.r.range (1, 5);
        L ("get_value_typed(%p, %d)", (void *) h, t);
        st = get_value (h, t, out);
        note (s, "get_value_typed", h, st);
        break;
    }
    case 7:
    {
        auto raw = ver (s).raw ();
        L ("keyval_set_default(%p)", (void *) h);
        st = dc_keyval_set_default (h, s.r.chance (1, 2) ? &raw : nullptr);
        note (s, "set_default", h, st);
        break;
    }
    case 8:
    {
        char b[64]; int32_t n = 0;
        auto raw = ver (s).raw ();
        int32_t size = (int32_t) s.r.range (1, 64);
        std::unique_ptr<char[]> buf (new char[size]);
        L ("get_default(%p, %d)", (void *) h, size);
        st = dc_get_default (h, s.r.chance (1, 2) ? &raw : nullptr, size, buf.get (), &n);
        note (s, "get_default", h, st);
        struct disir_collection *col = nullptr;
        L ("get_default_contexts(%p)", (void *) h);
        st = dc_get_default_contexts (h, &col);
        note (s, "get_default_contexts", h, st);
        if (st == DISIR_STATUS_OK) use_col (s, col);
        (void) b;
        break;
    }
    }
}
static void op_default (S& s)
{
    auto *h = of (s, {DISIR_CONTEXT_KEYVAL});
    if (!h) return;
    auto t = dc_value_type (h);
    Val v = gen_value (s.r, t >= 1 && t <= 5 && !s.r.chance (1, 8) ? (int) t : (int) s.r.range (1, 5), s.o);
    Ver iv = ver (s);
    St st;
    if (s.r.chance (1, 6))
    {
        std::string x = str (s);
        auto raw = iv.raw ();
        L ("add_default_text(%p, %s)", (void *) h, quote (x).c_str ());
        st = dc_add_default (h, x.c_str (), (int32_t) x.size (), s.r.chance (1, 3) ? nullptr : &raw);
    }
    else { L ("add_default(%p, %s, %s)", (void *) h, v.str ().c_str (), iv.str ().c_str ()); st = add_default (h, v, iv); }
    note (s, "add_default", h, st);
}
static void op_restriction (S& s)
{
    St st;
    auto raw = ver (s).raw ();
    auto *vp = s.r.chance (1, 3) ? nullptr : &raw;
    struct disir_context *out = nullptr;
    auto **op = s.r.chance (1, 3) ? &out : nullptr;
    switch (s.r.below (10))
    {
    case 0:
    {
        auto *h = of (s, {DISIR_CONTEXT_KEYVAL, DISIR_CONTEXT_SECTION}); if (!h) return;
        L ("add_restriction_entries_min(%p)", (void *) h);
        st = dc_add_restriction_entries_min (h, s.r.range (-1, 3), vp); note (s, "r_min", h, st); break;
    }
    case 1:
    {
        auto *h = of (s, {DISIR_CONTEXT_KEYVAL, DISIR_CONTEXT_SECTION}); if (!h) return;
        L ("add_restriction_entries_max(%p)", (void *) h);
        st = dc_add_restriction_entries_max (h, s.r.chance (1, 20) ? INT64_MAX : s.r.range (-1, 4), vp); note (s, "r_max", h, st); break;
    }
    case 2:
    {
        auto *h = of (s, {DISIR_CONTEXT_KEYVAL}); if (!h) return;
        auto x = str (s), d = str (s);
        L ("add_restriction_value_enum(%p, %s)", (void *) h, quote (x).c_str ());
        st = dc_add_restriction_value_enum (h, x.c_str (), s.r.chance (1, 2) ? d.c_str () : nullptr, vp, op);
        note (s, "r_enum", h, st); add (s, out); break;
    }
    case 3:
    {
        auto *h = of (s, {DISIR_CONTEXT_KEYVAL}); if (!h) return;
        auto d = str (s);
        double a = dbl (s), b = dbl (s);
        L ("add_restriction_value_range(%p, %g, %g)", (void *) h, a, b);
        st = dc_add_restriction_value_range (h, a, b, s.r.chance (1, 2) ? d.c_str () : nullptr, vp, op);
        note (s, "r_range", h, st); add (s, out); break;
    }
    case 4:
    {
        auto *h = of (s, {DISIR_CONTEXT_KEYVAL}); if (!h) return;
        auto d = str (s);
        double a = dbl (s);
        L ("add_restriction_value_numeric(%p, %g)", (void *) h, a);
        st = dc_add_restriction_value_numeric (h, a, s.r.chance (1, 2) ? d.c_str () : nullptr, vp, op);
        note (s, "r_num", h, st); add (s, out); break;
    }
    case 5:
    {
        auto *h = of (s, {DISIR_CONTEXT_RESTRICTION}); if (!h) return;
        int t = (int) s.r.range (s.r.chance (1, 10) ? -1 : 1, s.r.chance (1, 10) ? 8 : 5);
        L ("set_restriction_type(%p, %d)", (void *) h, t);
        st = dc_set_restriction_type (h, (enum disir_restriction_type) t); note (s, "r_settype", h, st);
        // a minimum of millions of entries is slow, not wrong
        if (t == DISIR_RESTRICTION_INC_ENTRY_MIN) { st = dc_restriction_set_numeric (h, (double) s.r.range (-1, 5)); note (s, "r_set", h, st); }
        enum disir_restriction_type g;
        st = dc_get_restriction_type (h, &g); note (s, "r_gettype", h, st);
        break;
    }
    case 6:
    {
        auto *h = of (s, {DISIR_CONTEXT_RESTRICTION}); if (!h) return;
        auto x = str (s);
        double a = dbl (s), b = dbl (s);
        enum disir_restriction_type cur = DISIR_RESTRICTION_UNKNOWN;
        dc_get_restriction_type (h, &cur);
        int now; memcpy (&now, &cur, sizeof now);
        if (now < DISIR_RESTRICTION_INC_ENTRY_MAX || now > DISIR_RESTRICTION_EXC_VALUE_NUMERIC) a = (double) s.r.range (-1, 5), b = a;
        L ("restriction_set(%p, %g, %g)", (void *) h, a, b);
        switch (s.r.below (3))
        {
        case 0: st = dc_restriction_set_string (h, x.c_str ()); break;
        case 1: st = dc_restriction_set_range (h, a, b); break;
        default: st = dc_restriction_set_numeric (h, a);
        }
        note (s, "r_set", h, st); break;
    }
    case 7:
    {
        auto *h = of (s, {DISIR_CONTEXT_RESTRICTION}); if (!h) return;
        const char *p = nullptr; double a, b;
        L ("restriction_get(%p)", (void *) h);
        st = dc_restriction_get_string (h, &p); note (s, "r_gets", h, st);
        if (st == DISIR_STATUS_OK && p && strlen (p) > 100000000) L ("long");
        st = dc_restriction_get_range (h, &a, &b); note (s, "r_getr", h, st);
        st = dc_restriction_get_numeric (h, &a); note (s, "r_getn", h, st);
        const char *t = dc_restriction_context_string (h);
        if (t && strlen (t) > 100000) L ("long");
        break;
    }
    case 8:
    {
        auto *h = of (s, {DISIR_CONTEXT_KEYVAL, DISIR_CONTEXT_SECTION}); if (!h) return;
        struct disir_collection *col = nullptr;
        L ("restriction_collection(%p)", (void *) h);
        st = dc_restriction_collection (h, &col); note (s, "r_col", h, st);
        if (st == DISIR_STATUS_OK) use_col (s, col);
        break;
    }
    default:
    {
        auto *h = of (s, {DISIR_CONTEXT_KEYVAL, DISIR_CONTEXT_SECTION}); if (!h) return;
        int n = 0;
        L ("restriction_entries(%p)", (void *) h);
        st = dc_restriction_entries_minimum (h, &n); note (s, "r_emin", h, st);
        st = dc_restriction_entries_maximum (h, &n); note (s, "r_emax", h, st);
        for (int t = -1; t < 9; t++) if (strlen (dc_restriction_enum_string ((enum disir_restriction_type) t)) > 1000) L ("long");
    }
    }
}
static void op_tree (S& s)
{
    auto *h = of (s, {DISIR_CONTEXT_CONFIG, DISIR_CONTEXT_MOLD, DISIR_CONTEXT_SECTION});
    if (!h) return;
    St st;
    struct disir_collection *col = nullptr;
    struct disir_context *x = nullptr;
    auto n = nm (s);
    switch (s.r.below (5))
    {
    case 0: L ("get_elements(%p)", (void *) h); st = dc_get_elements (h, &col); note (s, "get_elements", h, st); if (st == DISIR_STATUS_OK) use_col (s, col); break;
    case 1: L ("find_elements(%p, %s)", (void *) h, quote (n).c_str ()); st = dc_find_elements (h, n.c_str (), &col); note (s, "find_elements", h, st); if (st == DISIR_STATUS_OK) use_col (s, col); break;
    case 2: L ("find_element(%p, %s)", (void *) h, quote (n).c_str ()); st = dc_find_element (h, n.c_str (), (unsigned) s.r.below (3), &x); note (s, "find_element", h, st); if (st == DISIR_STATUS_OK) add (s, x); break;
    case 3:
    {
        auto q = query (s);
        L ("query_resolve_context(%p, %s)", (void *) h, quote (q).c_str ());
        st = dc_query_resolve_context (h, "%s", &x, q.c_str ()); note (s, "query", h, st); if (st == DISIR_STATUS_OK) add (s, x); break;
    }
    default:
    {
        auto q = query (s);
        Val v = gen_value (s.r, (int) s.r.range (1, 5), s.o);
        L ("config_keyval(%p, %s, %s)", (void *) h, quote (q).c_str (), v.str ().c_str ());
        bool set = s.r.chance (2, 3);
        switch (v.type)
        {
        case DISIR_VALUE_TYPE_STRING: { const char *p = nullptr; st = set ? dc_config_set_keyval_string (h, v.s.c_str (), "%s", q.c_str ()) : dc_config_get_keyval_string (h, &p, "%s", q.c_str ()); break; }
        case DISIR_VALUE_TYPE_ENUM: { const char *p = nullptr; st = set ? dc_config_set_keyval_enum (h, v.s.c_str (), "%s", q.c_str ()) : dc_config_get_keyval_enum (h, &p, "%s", q.c_str ()); break; }
        case DISIR_VALUE_TYPE_INTEGER: st = set ? dc_config_set_keyval_integer (h, v.i, "%s", q.c_str ()) : dc_config_get_keyval_integer (h, &v.i, "%s", q.c_str ()); break;
        case DISIR_VALUE_TYPE_FLOAT: st = set ? dc_config_set_keyval_float (h, v.d, "%s", q.c_str ()) : dc_config_get_keyval_float (h, &v.d, "%s", q.c_str ()); break;
        default: { uint8_t b = 0; st = set ? dc_config_set_keyval_boolean (h, v.b, "%s", q.c_str ()) : dc_config_get_keyval_boolean (h, &b, "%s", q.c_str ()); }
        }
        note (s, set ? "set_keyval" : "get_keyval", h, st);
    }
    }
}
static void op_col (S& s)
{
    if (s.cols.empty () || s.r.chance (1, 10)) { auto *c = dc_collection_create (); if (c) s.cols.push_back (c); L ("collection_create"); return; }
    size_t i = s.r.below (s.cols.size ());
    auto *col = s.cols[i];
    St st = DISIR_STATUS_OK;
    switch (s.r.below (6))
    {
    case 0: { auto *h = any (s); if (!h) return; L ("collection_push(%p)", (void *) h); st = dc_collection_push_context (col, h); note (s, "col_push", h, st); break; }
    case 1: case 2: { struct disir_context *x = nullptr; L ("collection_next"); st = dc_collection_next (col, &x); note (s, "col_next", x, st); if (st == DISIR_STATUS_OK) add (s, x); break; }
    case 3: L ("collection_reset"); st = dc_collection_reset (col); note (s, "col_reset", nullptr, st); break;
    case 4: L ("collection_size %d", dc_collection_size (col)); break;
    default: L ("collection_finished"); st = dc_collection_finished (&s.cols[i]); note (s, "col_finished", nullptr, st); s.cols.erase (s.cols.begin () + i);
    }
}
static void add_config (S& s, struct disir_config *cfg) { if (cfg) { s.configs.push_back (cfg); s.c.count ("configs"); } }
static void op_roots (S& s)
{
    St st;
    switch (s.r.below (16))
    {
    case 0: { struct disir_context *h = nullptr; L ("mold_begin"); st = dc_mold_begin (&h); note (s, "mold_begin", h, st); add (s, h, true); break; }
    case 1: case 2:
    {
        if (s.molds.empty ()) return;
        struct disir_context *h = nullptr; L ("config_begin"); st = dc_config_begin (s.r.pick (s.molds), &h); note (s, "config_begin", h, st); add (s, h, true); break;
    }
    case 3: case 4:
    {
        auto *h = of (s, {DISIR_CONTEXT_MOLD}); if (!h) return;
        if (!is_root (s, h)) return;       // a handle from getcontext may not be finalized again
        struct disir_mold *m = nullptr; auto *p = h;
        L ("mold_finalize(%p)", (void *) h);
        st = dc_mold_finalize (&p, &m); note (s, "mold_finalize", p, st);
        if (!p) { finalized (s, h); drop (s, h); }
        if (m) { s.molds.push_back (m); s.c.count ("molds"); }
        break;
    }
    case 5: case 6:
    {
        auto *h = of (s, {DISIR_CONTEXT_CONFIG}); if (!h || !is_root (s, h)) return;
        struct disir_config *m = nullptr; auto *p = h;
        L ("config_finalize(%p)", (void *) h);
        st = dc_config_finalize (&p, &m); note (s, "config_finalize", p, st);
        if (!p) { finalized (s, h); drop (s, h); }
        add_config (s, m);
        break;
    }
    case 7:
        if (!s.molds.empty ()) { auto *x = dc_mold_getcontext (s.r.pick (s.molds)); L ("mold_getcontext %p", (void *) x); add (s, x); }
        break;
    case 8:
        if (!s.configs.empty ()) { auto *x = dc_config_getcontext (s.r.pick (s.configs)); L ("config_getcontext %p", (void *) x); add (s, x); }
        break;
    case 9:
        if (!s.molds.empty ()) { struct disir_collection *col = nullptr; L ("mold_valid"); st = disir_mold_valid (s.r.pick (s.molds), s.r.chance (1, 2) ? &col : nullptr); note (s, "mold_valid", nullptr, st); use_col (s, col); }
        break;
    case 10:
        if (!s.configs.empty ()) { struct disir_collection *col = nullptr; L ("config_valid"); st = disir_config_valid (s.r.pick (s.configs), s.r.chance (1, 2) ? &col : nullptr); note (s, "config_valid", nullptr, st); use_col (s, col); }
        break;
    case 11:
        if (!s.molds.empty ())
        {
            auto raw = ver (s).raw (); struct disir_config *cfg = nullptr;
            L ("generate");
            st = disir_generate_config_from_mold (s.r.pick (s.molds), s.r.chance (1, 2) ? &raw : nullptr, &cfg); note (s, "generate", nullptr, st);
            add_config (s, cfg);
        }
        break;
    case 12:
        if (!s.configs.empty ()) { struct disir_mold *m = nullptr; L ("get_mold"); st = disir_config_get_mold (s.r.pick (s.configs), &m); note (s, "get_mold", nullptr, st); if (m) s.molds.push_back (m); }
        break;
    case 13:
        if (!s.molds.empty () && s.r.chance (1, 2)) { size_t i = s.r.below (s.molds.size ()); L ("mold_finished"); st = disir_mold_finished (&s.molds[i]); note (s, "mold_finished", nullptr, st); s.molds.erase (s.molds.begin () + i); }
        break;
    case 14:
        if (!s.configs.empty () && s.r.chance (1, 2)) { size_t i = s.r.below (s.configs.size ()); L ("config_finished"); st = disir_config_finished (&s.configs[i]); note (s, "config_finished", nullptr, st); s.configs.erase (s.configs.begin () + i); }
        break;
    default:
    {
        auto *h = of (s, {DISIR_CONTEXT_CONFIG});
        if (!h) return;
        L ("generate_from_config_root(%p)", (void *) h);
        st = dc_generate_from_config_root (h); note (s, "gen_root", h, st);
    }
    }
}
static void op_misc (S& s)
{
    auto *h = any (s);
    if (!h) return;
    St st;
    disir_version v = ver (s).raw ();
    switch (s.r.below (13))
    {
    case 0: L ("context_valid(%p)", (void *) h); st = dc_context_valid (h); note (s, "valid", h, st); break;
    case 1: { char *o = nullptr; L ("resolve_root_name(%p)", (void *) h); st = dc_resolve_root_name (h, &o); note (s, "rootname", h, st); if (st == DISIR_STATUS_OK) { L ("   %s", quote (o).c_str ()); free (o); } break; }
    case 2:
    {
        h = of (s, {DISIR_CONTEXT_SECTION, DISIR_CONTEXT_DEFAULT, DISIR_CONTEXT_RESTRICTION, DISIR_CONTEXT_DOCUMENTATION});
        L ("add_introduced(%p, %u.%u)", (void *) h, v.sv_major, v.sv_minor); st = dc_add_introduced (h, &v); note (s, "intro", h, st); break;
    }
    case 3:
    {
        h = of (s, {DISIR_CONTEXT_SECTION, DISIR_CONTEXT_KEYVAL, DISIR_CONTEXT_RESTRICTION});
        L ("add_deprecated(%p, %u.%u)", (void *) h, v.sv_major, v.sv_minor); st = dc_add_deprecated (h, &v); note (s, "depr", h, st); break;
    }
    case 4: L ("get_versions(%p)", (void *) h); st = dc_get_introduced (h, &v); note (s, "g_intro", h, st); st = dc_get_deprecated (h, &v); note (s, "g_depr", h, st); st = dc_get_version (h, &v); note (s, "g_ver", h, st); break;
    case 5: { h = of (s, {DISIR_CONTEXT_CONFIG, DISIR_CONTEXT_MOLD}); L ("set_version(%p, %u.%u)", (void *) h, v.sv_major, v.sv_minor); st = dc_set_version (h, &v); note (s, "s_ver", h, st); break; }
    case 6:
    {
        auto d = str (s);
        L ("add_documentation(%p, %s)", (void *) h, quote (d).c_str ());
        st = dc_add_documentation (h, d.c_str (), (int32_t) d.size ()); note (s, "doc", h, st); break;
    }
    case 7:
    {
        const char *p = nullptr; int32_t n = 0;
        L ("get_documentation(%p)", (void *) h);
        st = dc_get_documentation (h, s.r.chance (1, 2) ? &v : nullptr, &p, s.r.chance (1, 2) ? &n : nullptr); note (s, "getdoc", h, st);
        if (st == DISIR_STATUS_OK && p && strlen (p) > 1000000) L ("long");
        break;
    }
    case 8:
    {
        auto *g = any (s);
        struct disir_diff_report *rep = nullptr;
        L ("compare(%p, %p)", (void *) h, (void *) g);
        st = dc_compare (h, g, s.r.chance (2, 3) ? &rep : nullptr); note (s, "compare", h, st);
        free_report (rep);
        break;
    }
    case 9:
        if (s.r.chance (1, 6)) { L ("fatal_error(%p)", (void *) h); auto t = str (s); st = dc_fatal_error (h, "%s", t.c_str ()); note (s, "fatal", h, st); }
        break;
    case 10: { const char *p = nullptr; int32_t n; h = of (s, {DISIR_CONTEXT_KEYVAL, DISIR_CONTEXT_SECTION}); L ("get_name(%p)", (void *) h); st = dc_get_name (h, &p, s.r.chance (1, 2) ? &n : nullptr); note (s, "getname", h, st); break; }
    case 11:
    {
        const char *t = dc_context_type_string (h), *u = dc_value_type_string (h);
        L ("types(%p) %s %s", (void *) h, t ? t : "-", u ? u : "-");
        enum disir_value_type vt;
        st = dc_get_value_type (h, &vt); note (s, "valtype", h, st); break;
    }
    default:
    {
        h = of (s, {DISIR_CONTEXT_MOLD, DISIR_CONTEXT_SECTION});
        struct disir_context *out = nullptr;
        auto **op = s.r.chance (1, 3) ? &out : nullptr;
        auto n = nm (s), d = str (s), x = str (s);
        L ("add_keyval(%p, %s)", (void *) h, quote (n).c_str ());
        switch (s.r.below (5))
        {
        case 0: st = dc_add_keyval_string (h, n.c_str (), x.c_str (), d.c_str (), &v, op); break;
        case 1: st = dc_add_keyval_enum (h, n.c_str (), x.c_str (), d.c_str (), &v, op); break;
        case 2: st = dc_add_keyval_integer (h, n.c_str (), gen_int (s.r, s.o), d.c_str (), &v, op); break;
        case 3: st = dc_add_keyval_float (h, n.c_str (), dbl (s), d.c_str (), &v, op); break;
        default: st = dc_add_keyval_boolean (h, n.c_str (), 1, d.c_str (), &v, op);
        }
        note (s, "add_keyval", h, st);
        if (out) add (s, out);
    }
    }
}
static void op_update (S& s)
{
    St st;
    if (s.ups.empty () || s.r.chance (1, 4))
    {
        if (s.configs.empty ()) return;
        struct disir_update *u = nullptr;
        auto raw = ver (s).raw ();
        L ("update_config");
        st = disir_update_config (s.r.pick (s.configs), s.r.chance (1, 2) ? &raw : nullptr, &u); note (s, "update", nullptr, st);
        if (u) s.ups.push_back (u);
        return;
    }
    size_t i = s.r.below (s.ups.size ());
    switch (s.r.below (4))
    {
    case 0: { const char *a = nullptr, *b = nullptr, *c = nullptr; L ("update_conflict"); st = disir_update_conflict (s.ups[i], &a, &b, &c); note (s, "conflict", nullptr, st); if (st == DISIR_STATUS_CONFLICT) L ("  %s %s %s", a, b, c); break; }
    case 1: { auto x = str (s); L ("update_resolve"); st = disir_update_resolve (s.ups[i], x.c_str ()); note (s, "resolve", nullptr, st); break; }
    case 2: L ("update_continue"); st = disir_update_continue (s.ups[i]); note (s, "continue", nullptr, st); break;
    default:
    {
        struct disir_config *cfg = nullptr;
        L ("update_finished");
        st = disir_update_finished (&s.ups[i], &cfg); note (s, "updfin", nullptr, st);
        if (!s.ups[i]) s.ups.erase (s.ups.begin () + i);
        add_config (s, cfg);
    }
    }
}
static void release_one (S& s)
{
    auto *h = any (s);
    if (!h) return;
    auto *p = h;
    // a constructing root may be destroyed; a handle from getcontext is only put back
    bool canput = true, candestroy = true;
    auto t = dc_context_type (h);
    if ((t == DISIR_CONTEXT_MOLD || t == DISIR_CONTEXT_CONFIG) && !is_root (s, h)) candestroy = false;
    if (is_root (s, h)) canput = false;
    if (is_owner (s, h))
    {
        // an invalid element is part of its parent all the same: finalizing it again says so
        auto *q = h;
        if (dc_finalize (&q) == DISIR_STATUS_EXISTS) finalized (s, h);
        else if (!q) { finalized (s, h); drop (s, h); return; }
        else canput = false;
    }
    St st;
    if (candestroy && s.r.chance (1, 2)) { L ("destroy(%p)", (void *) h); st = dc_destroy (&p); }
    else if (canput) { L ("putcontext(%p)", (void *) h); st = dc_putcontext (&p); }
    else { L ("destroy root(%p)", (void *) h); st = dc_destroy (&p); }
    if (st != DISIR_STATUS_OK || p) s.c.violation ("release", "releasing a live handle returned %s", sname (st));
    s.c.count ("calls");
    drop (s, h);
}
static void release_all (S& s)
{
    L ("-- release everything");
    while (s.hs.size () + s.molds.size () + s.configs.size () + s.cols.size () + s.ups.size () > 0)
    {
        size_t k = s.r.below (5);
        if (k == 0 && !s.molds.empty ()) { L ("mold_finished"); disir_mold_finished (&s.molds.back ()); s.molds.pop_back (); }
        else if (k == 1 && !s.configs.empty ()) { L ("config_finished"); disir_config_finished (&s.configs.back ()); s.configs.pop_back (); }
        else if (k == 2 && !s.cols.empty ()) { L ("collection_finished"); dc_collection_finished (&s.cols.back ()); s.cols.pop_back (); }
        else if (k == 3 && !s.ups.empty ()) { L ("update_finished"); struct disir_config *cfg = nullptr; disir_update_finished (&s.ups.back (), &cfg); s.ups.pop_back (); if (cfg) s.configs.push_back (cfg); }
        else if (k == 4 && !s.hs.empty ()) release_one (s);
    }
}

// a chain of nested sections in a mold and the matching configuration, 'n' deep
static void deep (S& s, int n)
{
    s.c.count ("deep_nesting");
    MMold m;
    MEl *at = &m;
    for (int i = 0; i < n; i++) { MEl e; e.name = i % 2 ? "sec" : "sub"; e.section = true; at->kids.push_back (e); at = &at->kids.back (); }
    MEl k; k.name = "key"; k.vtype = DISIR_VALUE_TYPE_INTEGER; k.defs.push_back ({Ver {1, 0}, Val::I (5)});
    at->kids.push_back (k);
    m.ver = mold_version (m);
    auto *mold = build_mold (s.c, m);
    if (!mold) return;
    s.molds.push_back (mold);
    struct disir_config *cfg = nullptr;
    EXPECT_OK (s.c, disir_generate_config_from_mold (mold, nullptr, &cfg));
    add_config (s, cfg);
    if (!cfg) return;
    auto *x = dc_config_getcontext (cfg);
    add (s, x);
    for (int i = 0; i <= n; i++)
    {
        struct disir_collection *col = nullptr;
        struct disir_context *y = nullptr;
        if (dc_get_elements (x, &col) != DISIR_STATUS_OK) break;
        auto st = dc_collection_next (col, &y);
        dc_collection_finished (&col);
        if (st != DISIR_STATUS_OK) break;
        add (s, y);
        char *o = nullptr;
        if (dc_resolve_root_name (y, &o) == DISIR_STATUS_OK) free (o);
        x = y;
    }
}

// many elements, defaults, restrictions and documentation entries in one place
static void wide (S& s)
{
    auto& r = s.r;
    s.c.count ("wide");
    struct disir_context *m = nullptr, *k = nullptr;
    if (!EXPECT_OK (s.c, dc_mold_begin (&m))) return;
    int n = (int) r.range (12, r.chance (1, 4) ? 400 : 120);
    bool distinct = r.chance (1, 2);
    int names = distinct ? n : 1;
    for (int i = 0; i < names; i++)
    {
        auto nme = strf ("w%d", i);
        if (!EXPECT_OK (s.c, dc_begin (m, DISIR_CONTEXT_KEYVAL, &k))) break;
        EXPECT_OK (s.c, dc_set_name (k, nme.c_str (), (int32_t) nme.size ()));
        EXPECT_OK (s.c, dc_set_value_type (k, DISIR_VALUE_TYPE_INTEGER));
        EXPECT_OK (s.c, dc_add_default_integer (k, 1, nullptr));
        if (i == 0)
        {
            EXPECT_OK (s.c, dc_add_restriction_entries_max (k, 0, nullptr));
            if (!distinct) EXPECT_OK (s.c, dc_add_restriction_entries_min (k, n, nullptr));
            int q = (int) r.range (0, 150);
            for (int j = 0; j < q; j++)
            {
                struct disir_version v = {(uint32_t) r.range (1, 1000), (uint32_t) j};
                dc_add_default_integer (k, j, &v);
                auto doc = std::string (r.below (300) + 1, 'd');
                if (r.chance (1, 2)) EXPECT_OK (s.c, dc_add_restriction_value_range (k, -1e18 * (j + 1), 1e300, doc.c_str (), nullptr, nullptr));
                else EXPECT_OK (s.c, dc_add_restriction_value_numeric (k, j * 1e17, nullptr, nullptr, nullptr));
            }
        }
        EXPECT_OK (s.c, dc_finalize (&k));
    }
    if (k) dc_destroy (&k);
    struct disir_mold *mold = nullptr;
    EXPECT_OK (s.c, dc_mold_finalize (&m, &mold));
    if (!mold) return;
    s.molds.push_back (mold);
    struct disir_config *cfg = nullptr, *other = nullptr;
    disir_generate_config_from_mold (mold, nullptr, &cfg);
    disir_generate_config_from_mold (mold, nullptr, &other);
    add_config (s, cfg);
    add_config (s, other);
    if (!cfg || !other) return;
    auto *x = dc_config_getcontext (cfg), *y = dc_config_getcontext (other);
    add (s, x); add (s, y);
    struct disir_collection *col = nullptr;
    if (dc_get_elements (x, &col) == DISIR_STATUS_OK)
    {
        auto hs = collect (col);
        dc_collection_finished (&col);
        if ((int) hs.size () != n) s.c.violation ("wide:listing", "%d elements generated, %zu listed", n, hs.size ());
        for (size_t i = 0; i < hs.size (); i++)
        {
            if (r.chance (1, 3)) dc_set_value_integer (hs[i], r.chance (1, 2) ? (int64_t) i : INT64_MAX);
            if (r.chance (1, 5)) dc_destroy (&hs[i]);
            else if (r.chance (1, 8)) add (s, hs[i]);
            else dc_putcontext (&hs[i]);
        }
    }
    struct disir_diff_report *rep = nullptr;
    dc_compare (x, y, &rep);
    if (rep) { for (int i = 0; i < rep->dr_entries; i++) free (rep->dr_diff_string[i]); free (rep->dr_diff_string); free (rep); }
    if (dc_find_elements (x, "w0", &col) == DISIR_STATUS_OK) { if (r.chance (1, 2)) s.cols.push_back (col); else dc_collection_finished (&col); }
    if (dc_get_elements (y, &col) == DISIR_STATUS_OK) { if (r.chance (1, 2)) s.cols.push_back (col); else dc_collection_finished (&col); }
}

void driver_case (Case& c)
{
    S s (c);
    auto& r = c.r;
    if (r.chance (1, 40) && !g_api_ready) wide (s);
    if (c.no < NDIRECT) deep (s, (int) (c.no < 30 ? c.no : c.no * 3));
    // start from something useful in most histories
    if (r.chance (3, 4))
    {
        GenOpt o;
        o.depth = (int) r.range (1, 3); o.width = (int) r.range (1, 4);
        MMold m = gen_mold (r, o);
        for (auto& k : m.kids) s.names.push_back (k.name);
        auto *mold = build_mold (c, m);
        if (mold) { s.molds.push_back (mold); c.count ("molds"); }
        if (mold && r.chance (1, 2)) { struct disir_config *cfg = nullptr; disir_generate_config_from_mold (mold, nullptr, &cfg); add_config (s, cfg); if (cfg) add (s, dc_config_getcontext (cfg)); }
        if (mold && r.chance (1, 2)) { struct disir_context *h = nullptr; dc_config_begin (mold, &h); add (s, h, true); }
        if (mold && r.chance (1, 3)) add (s, dc_mold_getcontext (mold));
    }
    if (r.chance (1, 2)) { struct disir_context *h = nullptr; dc_mold_begin (&h); add (s, h, true); }
    int n = (int) r.range (10, r.chance (1, 8) ? 200 : 60);
    if (g_api_ready) g_api_ready ();
    // each operation draws from its own stream, so that a history can be minimised by leaving operations out
    uint64_t base = r.next ();
    std::set<int> skip;
    if (const char *e = getenv ("API_SKIP")) for (char *q = (char *) e; *q;) { skip.insert ((int) strtol (q, &q, 10)); while (*q == ',') q++; }
    for (int i = 0; i < n && !c.failed; i++)
    {
        r = Rng (base + (uint64_t) i * 7919);
        if (skip.count (i)) continue;
        int k = (int) r.below (100);
        if (k < 16)
        {
            static const std::vector<int> ts = {DISIR_CONTEXT_SECTION, DISIR_CONTEXT_SECTION, DISIR_CONTEXT_KEYVAL, DISIR_CONTEXT_KEYVAL, DISIR_CONTEXT_KEYVAL,
                                                DISIR_CONTEXT_DEFAULT, DISIR_CONTEXT_RESTRICTION, DISIR_CONTEXT_RESTRICTION, DISIR_CONTEXT_DOCUMENTATION};
            int t = r.chance (1, 40) ? (int) r.range (-1, 10) : r.pick (ts);
            struct disir_context *p = t == DISIR_CONTEXT_DEFAULT ? of (s, {DISIR_CONTEXT_KEYVAL})
                : t == DISIR_CONTEXT_SECTION || t == DISIR_CONTEXT_KEYVAL ? of (s, {DISIR_CONTEXT_CONFIG, DISIR_CONTEXT_MOLD, DISIR_CONTEXT_SECTION})
                : t == DISIR_CONTEXT_RESTRICTION ? of (s, {DISIR_CONTEXT_KEYVAL, DISIR_CONTEXT_SECTION}) : any (s);
            if (p) begin_child (s, p, t);
        }
        else if (k < 28)
        {
            auto *h = of (s, {DISIR_CONTEXT_KEYVAL, DISIR_CONTEXT_SECTION});
            if (!h) continue;
            auto nme = nm (s);
            L ("set_name(%p, %s)", (void *) h, quote (nme).c_str ());
            note (s, "set_name", h, dc_set_name (h, nme.c_str (), (int32_t) nme.size ()));
        }
        else if (k < 42) op_values (s);
        else if (k < 48) op_default (s);
        else if (k < 55) op_restriction (s);
        else if (k < 66)
        {
            auto *h = of (s, {DISIR_CONTEXT_KEYVAL, DISIR_CONTEXT_SECTION, DISIR_CONTEXT_DEFAULT, DISIR_CONTEXT_RESTRICTION, DISIR_CONTEXT_DOCUMENTATION});
            if (!h) continue;
            if (r.chance (2, 3)) finalize (s, h);
            else if (!is_root (s, h) || r.chance (1, 4))
            {
                L ("finalize_keep(%p %s)", (void *) h, dc_context_type_string (h));
                auto st = dc_finalize_keep_reference (h);
                note (s, "finalize_keep", h, st);
                if (st == DISIR_STATUS_OK) finalized (s, h);
            }
        }
        else if (k < 74) op_tree (s);
        else if (k < 78) op_col (s);
        else if (k < 86) op_roots (s);
        else if (k < 93) op_misc (s);
        else if (k < 95) op_update (s);
        else release_one (s);
    }
    r = Rng (base);
    if (s.ok >= 8) c.nontrivial_hash (s.sig);
    if (c.no % 97 == 5) c.sample (strf ("history of %d calls, %d successful, ending with %zu handles", n, s.ok, s.hs.size ()));
    release_all (s);
}
