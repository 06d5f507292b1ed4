// C04: a value is accepted exactly when the value restrictions active at the configuration's version admit it.
#include "dis.hh"
const char *PROPERTY = "C04";
const char *RULE = "one entry with its restrictions at one configuration version and the values tried; distinct by all three; non-trivial: at least one value accepted and one refused";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"accepted", 5000}, {"refused", 5000}, {"construct_invalid", 300}, {"construct_valid", 300}, {"inactive_window", 1000}, {"version_changes", 200}};
long driver_directed () { return 0; }
void driver_setup () {}

static std::vector<Val> candidates (Rng& r, const MEl& e, const GenOpt& o)
{
    std::vector<Val> v;
    for (int i = 0; i < 4; i++) v.push_back (gen_value (r, e.vtype, o));
    for (auto& d : e.defs) v.push_back (d.v);
    for (auto& q : e.res)
    {
        if (!q.value ()) continue;
        for (double d : {q.lo, q.hi, q.lo / 2 + q.hi / 2})
        {
            if (e.vtype == DISIR_VALUE_TYPE_FLOAT) for (double x : {d, nextafter (d, -INFINITY), nextafter (d, INFINITY)}) { if (std::isfinite (x)) v.push_back (Val::F (x)); }
            if (e.vtype == DISIR_VALUE_TYPE_INTEGER && d > -9e18 && d < 9e18)
                for (int64_t k : {-1, 0, 1}) v.push_back (Val::I ((int64_t) d + k));
        }
        if (e.vtype == DISIR_VALUE_TYPE_ENUM)
        {
            v.push_back (Val::E (q.s)); v.push_back (Val::E (q.s + "x")); v.push_back (Val::E (""));
            if (!q.s.empty ()) { v.push_back (Val::E (q.s.substr (0, q.s.size () - 1))); std::string f = q.s; f[0] ^= 32; if (f[0]) v.push_back (Val::E (f)); }
        }
    }
    for (size_t i = 1; i < v.size (); i++) std::swap (v[i], v[r.below (i + 1)]);
    if (v.size () > 24) v.resize (24);
    return v;
}
static enum disir_status qset (struct disir_context *root, const std::string& p, const Val& v)
{
    switch (v.type)
    {
    case DISIR_VALUE_TYPE_ENUM: return dc_config_set_keyval_enum (root, v.s.c_str (), "%s", p.c_str ());
    case DISIR_VALUE_TYPE_INTEGER: return dc_config_set_keyval_integer (root, v.i, "%s", p.c_str ());
    case DISIR_VALUE_TYPE_FLOAT: return dc_config_set_keyval_float (root, v.d, "%s", p.c_str ());
    case DISIR_VALUE_TYPE_STRING: return dc_config_set_keyval_string (root, v.s.c_str (), "%s", p.c_str ());
    default: return dc_config_set_keyval_boolean (root, v.b, "%s", p.c_str ());
    }
}

void driver_case (Case& c)
{
    Rng& r = c.r;
    GenOpt o;
    o.strings = r.chance (1, 2) ? 2 : 0;
    o.extreme_values = r.chance (1, 2);
    std::vector<Ver> ladder = {{1, 0}};
    { std::set<Ver> s; for (int n = (int) r.range (0, 5); n > 0; n--) s.insert (gen_ver (r)); s.erase (Ver {1, 0}); for (auto v : s) ladder.push_back (v); }
    MEl e;
    e.name = "key";
    e.vtype = r.pick ({DISIR_VALUE_TYPE_INTEGER, DISIR_VALUE_TYPE_FLOAT, DISIR_VALUE_TYPE_ENUM, DISIR_VALUE_TYPE_INTEGER, DISIR_VALUE_TYPE_FLOAT, DISIR_VALUE_TYPE_ENUM, DISIR_VALUE_TYPE_STRING, DISIR_VALUE_TYPE_BOOLEAN});
    e.defs.push_back ({Ver {1, 0}, gen_value (r, e.vtype, o)});
    { MRes x; x.type = DISIR_RESTRICTION_INC_ENTRY_MAX; x.hi = 0; e.res.push_back (x); }
    if (r.chance (1, 2)) { MRes x; x.type = DISIR_RESTRICTION_INC_ENTRY_MIN; x.lo = 0; e.res.push_back (x); }
    bool num = e.vtype == DISIR_VALUE_TYPE_INTEGER || e.vtype == DISIR_VALUE_TYPE_FLOAT;
    if (num || e.vtype == DISIR_VALUE_TYPE_ENUM)
        for (int n = (int) r.range (0, 6); n > 0; n--)
        {
            MRes x;
            x.type = !num ? DISIR_RESTRICTION_EXC_VALUE_ENUM : r.chance (2, 3) ? DISIR_RESTRICTION_EXC_VALUE_RANGE : DISIR_RESTRICTION_EXC_VALUE_NUMERIC;
            x.s = num ? "" : gen_value (r, e.vtype, o).s;
            auto g = [&] {
                if (e.vtype == DISIR_VALUE_TYPE_FLOAT) return gen_double (r, o);
                int64_t v = gen_int (r, o);
                double d = r.chance (1, 8) ? (double) r.range (-100, 100) / 4 : (double) v;
                return d;
            };
            if (num) { x.lo = g (); if (x.type == DISIR_RESTRICTION_EXC_VALUE_RANGE) { x.hi = g (); if (x.hi < x.lo) std::swap (x.lo, x.hi); } }
            x.intro = r.pick (ladder);
            if (r.chance (1, 2)) { std::vector<Ver> l; for (auto v : ladder) if (v > x.intro) l.push_back (v); if (!l.empty ()) x.depr = r.pick (l); }
            e.res.push_back (x);
        }
    // a second entry keeps the mold's version up and, when it has the same restrictions elsewhere, must not interfere
    MMold m;
    bool nested = r.chance (1, 2);
    if (nested)
    {
        MEl s; s.name = "sec"; s.section = true;
        MEl other = e;
        other.res.clear (); other.vtype = DISIR_VALUE_TYPE_BOOLEAN; other.defs = {{ladder.back (), Val::B (true)}};
        { MRes x; x.type = DISIR_RESTRICTION_INC_ENTRY_MIN; x.lo = 0; other.res.push_back (x); }
        m.kids.push_back (other);
        s.kids.push_back (e);
        m.kids.push_back (s);
    }
    else
    {
        MEl pin; pin.name = "pin"; pin.vtype = DISIR_VALUE_TYPE_BOOLEAN; pin.defs.push_back ({ladder.back (), Val::B (true)});
        { MRes x; x.type = DISIR_RESTRICTION_INC_ENTRY_MIN; x.lo = 0; pin.res.push_back (x); }
        m.kids.push_back (e);
        m.kids.push_back (pin);
    }
    auto *mold = build_mold (c, m);
    if (!mold) return;
    Ver v = r.pick (ladder);
    if (r.chance (1, 3) && v.b) { v.b--; }
    else if (r.chance (1, 3) && v < mold_version (m)) { Ver w {v.a, v.b + 1}; if (w <= mold_version (m)) v = w; }
    c.log ("at %s: %s", v.str ().c_str (), e.str ().c_str ());
    struct disir_context *root = nullptr, *parent = nullptr;
    struct disir_config *cfg = nullptr;
    bool ok = EXPECT_OK (c, dc_config_begin (mold, &root));
    auto raw = v.raw ();
    ok = ok && EXPECT_OK (c, dc_set_version (root, &raw));
    if (!ok) { if (root) dc_destroy (&root); disir_mold_finished (&mold); return; }
    if (nested) { ok = EXPECT_OK (c, dc_begin (root, DISIR_CONTEXT_SECTION, &parent)) && EXPECT_OK (c, dc_set_name (parent, "sec", 3)); }
    else parent = root;
    // under construction: stored in any case, completing tells
    int good = 0, bad = 0;
    struct disir_context *kv = nullptr;
    Val cur;
    bool have = false;
    auto construct = [&] (bool last) {
        struct disir_context *k = nullptr;
        if (!EXPECT_OK (c, dc_begin (parent, DISIR_CONTEXT_KEYVAL, &k))) return;
        EXPECT_OK (c, dc_set_name (k, "key", 3));
        Val x = last ? gen_accepted (r, e, v, o) : r.pick (candidates (r, e, o));
        bool want = accepts (e, v, x);
        c.log ("construct with %s: expected %s", x.str ().c_str (), want ? "valid" : "invalid");
        auto st = set_value (k, x);
        if (st != (want ? DISIR_STATUS_OK : DISIR_STATUS_INVALID_CONTEXT) && st != (want ? DISIR_STATUS_OK : DISIR_STATUS_RESTRICTION_VIOLATED))
            c.violation (strf ("construct:set:%d", e.vtype), "setting %s on an entry under construction returned %s, the value is %s", x.str ().c_str (), sname (st), want ? "admitted" : "not admitted");
        st = dc_finalize_keep_reference (k);
        if ((st == DISIR_STATUS_OK) != want) c.violation (strf ("construct:finalize:%d", e.vtype), "completing an entry with %s (%s) returned %s", x.str ().c_str (), want ? "admitted" : "not admitted", sname (st));
        c.count (want ? "construct_valid" : "construct_invalid");
        if (want && st == DISIR_STATUS_OK) { if (kv) dc_putcontext (&kv); kv = k; cur = x; have = true; }
        else
        {
            // judged again when it is given another value
            enum disir_status vs = dc_context_valid (k);
            if ((vs == DISIR_STATUS_OK) != want) c.violation (strf ("construct:valid:%d", e.vtype), "entry with %s (%s) is reported %s", x.str ().c_str (), want ? "admitted" : "not admitted", sname (vs));
            dc_destroy (&k);
        }
    };
    for (int n = (int) r.range (0, 3); n > 0 && !c.failed; n--) construct (false);
    if (!have && !c.failed) construct (true);
    auto *d = active_default (e, &v);
    (void) d;
    std::vector<struct disir_context *> keep;
    if (nested) { auto st = dc_finalize_keep_reference (parent); if (st != DISIR_STATUS_OK && !have) { dc_destroy (&parent); parent = nullptr; } }
    enum disir_status fin = dc_config_finalize (&root, &cfg);
    if (root) dc_destroy (&root);
    if (have && !c.failed && fin != DISIR_STATUS_OK) c.violation ("finalize", "a configuration whose entries are all admitted is completed with %s", sname (fin));
    if (have && cfg && !c.failed)
    {
        root = dc_config_getcontext (cfg);
        std::string path = nested ? "sec.key" : "key";
        int idx = 0;
        {
            struct disir_collection *col = nullptr;
            if (dc_find_elements (parent == nullptr ? root : nested ? parent : root, "key", &col) == DISIR_STATUS_OK)
            {
                int i = 0;
                for (auto *h : collect (col)) { if (h == kv) idx = i; i++; dc_putcontext (&h); }
                dc_collection_finished (&col);
            }
        }
        path += strf ("@%d", idx);
        for (int round = 0; round < 2 && !c.failed; round++)
        {
            for (auto& x : candidates (r, e, o))
            {
                bool want = accepts (e, v, x);
                bool q = r.chance (1, 4);
                c.log ("%s %s: expected %s", q ? "query set" : "set", x.str ().c_str (), want ? "accepted" : "refused");
                auto st = q ? qset (root, path, x) : set_value (kv, x);
                if (want && st != DISIR_STATUS_OK) c.violation (strf ("refused:%d", e.vtype), "admitted value %s refused with %s at %s", x.str ().c_str (), sname (st), v.str ().c_str ());
                if (!want && st != DISIR_STATUS_RESTRICTION_VIOLATED) c.violation (strf ("accepted:%d", e.vtype), "setting %s, which no active restriction admits at %s, returned %s", x.str ().c_str (), v.str ().c_str (), sname (st));
                if (want) { cur = x; good++; c.count ("accepted"); } else { bad++; c.count ("refused"); }
                Val now;
                auto gs = get_value (kv, e.vtype, now);
                if (gs != DISIR_STATUS_OK || now != cur) c.violation (strf ("value:%d", e.vtype), "after the set the entry holds %s (%s) instead of %s", now.str ().c_str (), sname (gs), cur.str ().c_str ());
                if (c.failed) break;
            }
            for (auto& q : e.res) if (q.value () && !res_active (q, v)) c.count ("inactive_window");
            if (round == 0)
            {
                Ver w = r.pick (ladder);
                auto rw = w.raw ();
                if (w == v || r.chance (1, 2)) break;
                auto st = dc_set_version (root, &rw);
                if (st != DISIR_STATUS_OK) { c.violation ("set-version", "dc_set_version (%s) returned %s", w.str ().c_str (), sname (st)); break; }
                v = w;
                c.log ("version is now %s", v.str ().c_str ());
                c.count ("version_changes");
            }
        }
        dc_putcontext (&root);
    }
    if (good && bad) c.nontrivial (e.str () + v.str () + cur.str () + strf ("%d/%d", good, bad));
    if (c.no % 401 == 3) c.sample (e.str () + "at " + v.str () + strf (": %d values accepted, %d refused", good, bad));
    if (kv) dc_putcontext (&kv);
    if (nested && parent) dc_putcontext (&parent);
    if (cfg) disir_config_finished (&cfg);
    disir_mold_finished (&mold);
}
