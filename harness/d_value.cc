// C03: values read back exactly as set. A model holds the value of every entry, default and documentation text;
// after each operation the touched object, and now and then all of them, is read through every getter.
#include "dis.hh"
const char *PROPERTY = "C03";
const char *RULE = "one history of sets and gets; distinct by the sequence of (target, operation, value); non-trivial: a value was overwritten by a longer and by a shorter one, or a set was refused";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"sets", 5000}, {"refused_type", 500}, {"query_sets", 500}, {"text_sets", 500}, {"constructing", 200}, {"defaults", 200}, {"short_buffers", 500}, {"long_strings", 50}};
long driver_directed () { return 0; }
void driver_setup () {}

struct T { struct disir_context *c; Val v; std::string path; bool is_default = false; };

static void check_text (Case& c, T& t)
{
    char big[512];
    std::string want;
    switch (t.v.type)
    {
    case DISIR_VALUE_TYPE_STRING: case DISIR_VALUE_TYPE_ENUM: want = t.v.s; break;
    case DISIR_VALUE_TYPE_INTEGER: want = strf ("%lld", (long long) t.v.i); break;
    case DISIR_VALUE_TYPE_FLOAT: snprintf (big, sizeof big, "%f", t.v.d); want = big; break;
    case DISIR_VALUE_TYPE_BOOLEAN: want = t.v.b ? "True" : "False"; break;
    }
    int n;
    switch (c.r.below (4))
    {
    case 0: n = (int) want.size () + 1; break;
    case 1: n = (int) want.size () + 1 + (int) c.r.below (40); break;
    case 2: n = (int) std::max<size_t> (want.size (), 1); c.count ("short_buffers"); break;
    default: n = 1 + (int) c.r.below (want.size () + 1); c.count ("short_buffers");
    }
    std::unique_ptr<char[]> b (new char[n]);
    memset (b.get (), 'Z', n);
    int32_t got = -1;
    auto st = dc_get_value (t.c, n, b.get (), c.r.chance (1, 5) ? nullptr : &got);
    if (st != DISIR_STATUS_OK) { c.violation ("text:status", "dc_get_value of %s returned %s", t.path.c_str (), sname (st)); return; }
    size_t keep = std::min<size_t> (want.size (), n - 1);
    if (memcmp (b.get (), want.data (), keep) != 0 || b[keep] != 0)
        c.violation ("text:value", "%s: text of %s into %d bytes is %s", t.path.c_str (), t.v.str ().c_str (), n, quote (std::string (b.get (), n)).c_str ());
    if (got != -1 && (size_t) got != want.size ()) c.violation ("text:size", "%s: size reported %d instead of %zu", t.path.c_str (), got, want.size ());
}
static void check_one (Case& c, T& t, const char *when)
{
    for (int k = 1; k <= 5; k++)
    {
        Val out;
        auto st = get_value (t.c, k, out);
        if (k == t.v.type)
        {
            if (st != DISIR_STATUS_OK) c.violation (strf ("get:status:%d", k), "%s: reading %s of its own type returned %s (%s)", when, t.path.c_str (), sname (st), t.v.str ().c_str ());
            else if (out != t.v) c.violation (strf ("get:value:%d", k), "%s: %s reads %s, was set to %s", when, t.path.c_str (), out.str ().c_str (), t.v.str ().c_str ());
        }
        else if (st != DISIR_STATUS_WRONG_VALUE_TYPE)
            c.violation (strf ("get:wrong-type:%d-as-%d", t.v.type, k), "%s: reading %s (%s) as type %d returned %s", when, t.path.c_str (), t.v.str ().c_str (), k, sname (st));
    }
    enum disir_value_type vt = DISIR_VALUE_TYPE_UNKNOWN;
    auto st = dc_get_value_type (t.c, &vt);
    if (st != DISIR_STATUS_OK || vt != t.v.type) c.violation ("type", "%s: value type of %s reported %s / %d", when, t.path.c_str (), sname (st), vt);
    if (!t.is_default) check_text (c, t);
}
static enum disir_status query_set (struct disir_context *root, const std::string& path, const Val& v)
{
    switch (v.type)
    {
    case DISIR_VALUE_TYPE_STRING: return dc_config_set_keyval_string (root, v.s.c_str (), "%s", path.c_str ());
    case DISIR_VALUE_TYPE_ENUM: return dc_config_set_keyval_enum (root, v.s.c_str (), "%s", path.c_str ());
    case DISIR_VALUE_TYPE_INTEGER: return dc_config_set_keyval_integer (root, v.i, "%s", path.c_str ());
    case DISIR_VALUE_TYPE_FLOAT: return dc_config_set_keyval_float (root, v.d, "%s", path.c_str ());
    default: return dc_config_set_keyval_boolean (root, v.b, "%s", path.c_str ());
    }
}
static enum disir_status query_get (struct disir_context *root, const std::string& path, int type, Val& v)
{
    const char *p = nullptr;
    enum disir_status st;
    v = Val ();
    v.type = type;
    switch (type)
    {
    case DISIR_VALUE_TYPE_STRING: st = dc_config_get_keyval_string (root, &p, "%s", path.c_str ()); if (st == DISIR_STATUS_OK) v.s = p ? p : ""; return st;
    case DISIR_VALUE_TYPE_ENUM: st = dc_config_get_keyval_enum (root, &p, "%s", path.c_str ()); if (st == DISIR_STATUS_OK) v.s = p ? p : ""; return st;
    case DISIR_VALUE_TYPE_INTEGER: return dc_config_get_keyval_integer (root, &v.i, "%s", path.c_str ());
    case DISIR_VALUE_TYPE_FLOAT: return dc_config_get_keyval_float (root, &v.d, "%s", path.c_str ());
    default: { uint8_t b = 0; st = dc_config_get_keyval_boolean (root, &b, "%s", path.c_str ()); v.b = b; return st; }
    }
}
// the library takes any byte as a boolean
static enum disir_status set_raw (Case& c, struct disir_context *x, const Val& v)
{
    if (v.type == DISIR_VALUE_TYPE_STRING || (v.type == DISIR_VALUE_TYPE_ENUM && c.r.chance (1, 2)))
    {
        // not terminated at its size
        std::string s = v.s + (c.r.chance (1, 2) ? "tail" : "");
        std::unique_ptr<char[]> p (new char[s.size () + 1]);
        memcpy (p.get (), s.data (), s.size ());
        p[s.size ()] = 0;
        if (v.type == DISIR_VALUE_TYPE_ENUM) return dc_set_value_enum (x, p.get (), (int32_t) v.s.size ());
        if (s.size () == v.s.size () && !s.empty () && c.r.chance (1, 2))
        {
            std::unique_ptr<char[]> q (new char[s.size ()]);
            memcpy (q.get (), s.data (), s.size ());
            return dc_set_value_string (x, q.get (), (int32_t) v.s.size ());
        }
        return dc_set_value_string (x, p.get (), (int32_t) v.s.size ());
    }
    return set_value (x, v);
}

void driver_case (Case& c)
{
    Rng& r = c.r;
    GenOpt o;
    o.strings = 3;
    static const char *names[] = {"", "vs", "vi", "vf", "vb", "ve"};
    std::vector<std::string> enums;
    for (int i = (int) r.range (1, 5); i > 0; i--) { auto s = gen_string (r, o); enums.push_back (s); }
    auto value = [&] (int type) {
        Val v = gen_value (r, type, o);
        if (type == DISIR_VALUE_TYPE_ENUM) v.s = r.pick (enums);
        if (type == DISIR_VALUE_TYPE_STRING && r.chance (1, 12)) { v.s = std::string (r.range (1000, 100000), (char) r.range (1, 255)); c.count ("long_strings"); }
        if (type == DISIR_VALUE_TYPE_FLOAT && r.chance (1, 20)) v.d = r.pick ({(double) INFINITY, (double) -INFINITY});
        return v;
    };
    // mold: one entry of each type at the top and twice inside each of two sections; unlimited instances
    MMold m;
    auto fill = [&] (MEl& e) {
        for (int t = 1; t <= 5; t++)
        {
            MEl k;
            k.name = names[t]; k.vtype = t;
            k.defs.push_back ({Ver {1, 0}, value (t)});
            MRes x; x.type = DISIR_RESTRICTION_INC_ENTRY_MAX; x.hi = 0;
            k.res.push_back (x);
            if (t == DISIR_VALUE_TYPE_ENUM) for (auto& s : enums) { MRes q; q.type = DISIR_RESTRICTION_EXC_VALUE_ENUM; q.s = s; k.res.push_back (q); }
            e.kids.push_back (k);
        }
    };
    fill (m);
    MEl sec; sec.name = "sec"; sec.section = true; fill (sec);
    { MRes x; x.type = DISIR_RESTRICTION_INC_ENTRY_MAX; x.hi = 0; sec.res.push_back (x); MRes y; y.type = DISIR_RESTRICTION_INC_ENTRY_MIN; y.lo = 2; sec.res.push_back (y); }
    m.kids.push_back (sec);
    auto *mold = build_mold (c, m);
    if (!mold) return;
    struct disir_config *cfg = nullptr;
    if (!EXPECT_OK (c, disir_generate_config_from_mold (mold, nullptr, &cfg)) || !cfg) { disir_mold_finished (&mold); return; }
    auto *root = dc_config_getcontext (cfg);
    std::vector<T> ts;
    std::string key;
    bool interesting = false;
    auto walk = [&] (struct disir_context *x, const std::string& pre, const MEl& e) {
        struct disir_collection *col = nullptr;
        if (!EXPECT_OK (c, dc_get_elements (x, &col))) return;
        for (auto *h : collect (col))
        {
            if (dc_context_type (h) != DISIR_CONTEXT_KEYVAL) { dc_putcontext (&h); continue; }
            auto n = own_name (h);
            ts.push_back ({h, e.find (n)->defs[0].v, pre + n});
        }
        dc_collection_finished (&col);
    };
    walk (root, "", m);
    for (int i = 0; i < 2; i++)
    {
        struct disir_context *s = nullptr;
        if (!EXPECT_OK (c, dc_find_element (root, "sec", i, &s))) break;
        walk (s, strf ("sec@%d.", i), sec);
        dc_putcontext (&s);
    }
    if (ts.size () != 15) c.violation ("setup", "%zu generated entries instead of 15", ts.size ());
    for (auto& t : ts) check_one (c, t, "after generation");
    int n = (int) r.range (10, 60);
    for (int i = 0; i < n && !c.failed && !ts.empty (); i++)
    {
        T& t = ts[r.below (r.chance (1, 2) ? std::min<size_t> (ts.size (), 5) : ts.size ())];
        int k = (int) r.below (20);
        if (k < 8)
        {
            Val v = value (t.v.type);
            c.log ("set %s = %s", t.path.c_str (), v.str ().c_str ());
            auto st = set_raw (c, t.c, v);
            c.count ("sets");
            if (st != DISIR_STATUS_OK) { c.violation (strf ("set:status:%d", t.v.type), "setting %s to %s returned %s", t.path.c_str (), v.str ().c_str (), sname (st)); break; }
            if (v.s.size () < t.v.s.size ()) interesting = true;
            t.v = v;
            key += t.path + "=" + v.str ();
        }
        else if (k < 11)
        {
            int w;
            do w = (int) r.range (1, 5); while (w == t.v.type);
            Val v = value (w);
            if (w == DISIR_VALUE_TYPE_ENUM && t.v.type == DISIR_VALUE_TYPE_STRING && r.chance (1, 2)) v.s = t.v.s;
            c.log ("set wrong %s = %s", t.path.c_str (), v.str ().c_str ());
            auto st = r.chance (1, 3) ? query_set (root, t.path, v) : set_raw (c, t.c, v);
            c.count ("refused_type");
            interesting = true;
            key += t.path + "!" + v.str ();
            if (st != DISIR_STATUS_WRONG_VALUE_TYPE) c.violation (strf ("set:wrong-type:%d-as-%d", t.v.type, w), "setting %s (type %d) to %s returned %s", t.path.c_str (), t.v.type, v.str ().c_str (), sname (st));
        }
        else if (k < 14)
        {
            Val v = value (t.v.type);
            c.log ("query set %s = %s", t.path.c_str (), v.str ().c_str ());
            auto st = query_set (root, t.path, v);
            c.count ("query_sets");
            if (st != DISIR_STATUS_OK) { c.violation (strf ("query-set:status:%d", t.v.type), "setting %s to %s by query returned %s", t.path.c_str (), v.str ().c_str (), sname (st)); break; }
            t.v = v;
            key += t.path + "?" + v.str ();
        }
        else if (k < 16)
        {
            int w = r.chance (2, 3) ? t.v.type : (int) r.range (1, 5);
            Val v;
            auto st = query_get (root, t.path, w, v);
            bool nul = t.v.s.find ('\0') != std::string::npos;
            if (w == t.v.type) { if (st != DISIR_STATUS_OK || (v != t.v && !nul)) c.violation (strf ("query-get:%d", w), "query of %s: %s, %s instead of %s", t.path.c_str (), sname (st), v.str ().c_str (), t.v.str ().c_str ()); }
            else if (st != DISIR_STATUS_WRONG_VALUE_TYPE) c.violation (strf ("query-get:wrong-type:%d-as-%d", t.v.type, w), "query of %s (type %d) as %d returned %s", t.path.c_str (), t.v.type, w, sname (st));
        }
        else if (k < 19)
        {
            // from text
            Val v = value (t.v.type);
            std::string text;
            enum disir_status want = DISIR_STATUS_OK;
            switch (t.v.type)
            {
            case DISIR_VALUE_TYPE_STRING: case DISIR_VALUE_TYPE_ENUM: text = v.s; break;
            case DISIR_VALUE_TYPE_INTEGER:
            {
                // decimal, however it is padded
                auto mag = strf ("%llu", v.i < 0 ? 0ULL - (unsigned long long) v.i : (unsigned long long) v.i);
                text = std::string (r.chance (1, 6) ? 1 : 0, ' ') + (v.i < 0 ? "-" : r.chance (1, 5) ? "+" : "") + std::string (r.chance (1, 3) ? r.range (1, 4) : 0, '0') + mag;
                break;
            }
            case DISIR_VALUE_TYPE_FLOAT: { char b[400]; snprintf (b, sizeof b, r.chance (1, 2) ? "%.17g" : "%a", v.d); text = b; break; }
            case DISIR_VALUE_TYPE_BOOLEAN: text = v.b ? r.pick ({std::string ("1"), std::string ("true"), std::string ("True"), std::string ("t")}) : r.pick ({std::string ("0"), std::string ("false"), std::string ("False"), std::string ("f")}); break;
            }
            if (t.v.type != DISIR_VALUE_TYPE_STRING && t.v.type != DISIR_VALUE_TYPE_ENUM && r.chance (1, 5)) { text = r.pick ({std::string ("x"), std::string (""), std::string ("--"), std::string ("yes")}); want = DISIR_STATUS_INVALID_ARGUMENT; }
            c.log ("text set %s = %s", t.path.c_str (), quote (text).c_str ());
            auto st = dc_set_value (t.c, text.c_str (), (int32_t) text.size ());
            c.count ("text_sets");
            if (st != want) { c.violation (strf ("text-set:status:%d", t.v.type), "setting %s from text %s returned %s instead of %s", t.path.c_str (), quote (text).c_str (), sname (st), sname (want)); break; }
            if (st == DISIR_STATUS_OK) t.v = v;
            key += t.path + "~" + text;
        }
        else
        {
            c.log ("set default %s", t.path.c_str ());
            auto st = dc_keyval_set_default (t.c, nullptr);
            const MEl *e = t.path.compare (0, 3, "sec") == 0 ? sec.find (t.path.substr (t.path.find ('.') + 1)) : m.find (t.path);
            if (st != DISIR_STATUS_OK) c.violation ("set-default", "dc_keyval_set_default (%s) returned %s", t.path.c_str (), sname (st));
            t.v = e->defs[0].v;
            key += t.path + "<";
        }
        check_one (c, t, "after an operation on it");
        if (r.chance (1, 8)) for (auto& x : ts) check_one (c, x, "after an operation on another entry");
    }
    for (auto& x : ts) check_one (c, x, "at the end");
    // under construction
    for (int i = 0; i < 3 && !c.failed; i++)
    {
        int t = (int) r.range (1, 5);
        T x {nullptr, Val (), strf ("constructing %s", names[t])};
        if (!EXPECT_OK (c, dc_begin (root, DISIR_CONTEXT_KEYVAL, &x.c))) break;
        EXPECT_OK (c, dc_set_name (x.c, names[t], (int32_t) strlen (names[t])));
        for (int k = (int) r.range (1, 3); k > 0 && !c.failed; k--)
        {
            x.v = value (t);
            c.log ("constructing %s = %s", names[t], x.v.str ().c_str ());
            EXPECT_OK (c, set_raw (c, x.c, x.v));
            check_one (c, x, "under construction");
        }
        EXPECT_OK (c, dc_finalize_keep_reference (x.c));
        check_one (c, x, "just completed");
        ts.push_back (x);
        c.count ("constructing");
    }
    // defaults and documentation
    struct disir_context *mc = nullptr;
    if (!c.failed && EXPECT_OK (c, dc_mold_begin (&mc)))
    {
        for (int i = 0; i < 2 && !c.failed; i++)
        {
            int t = (int) r.range (1, 5);
            struct disir_context *kv = nullptr;
            if (!EXPECT_OK (c, dc_begin (mc, DISIR_CONTEXT_KEYVAL, &kv))) break;
            EXPECT_OK (c, dc_set_name (kv, "k", 1));
            EXPECT_OK (c, dc_set_value_type (kv, (enum disir_value_type) t));
            T x {nullptr, Val (), strf ("default of type %d", t), true};
            if (EXPECT_OK (c, dc_begin (kv, DISIR_CONTEXT_DEFAULT, &x.c)))
            {
                for (int k = (int) r.range (1, 3); k > 0 && !c.failed; k--)
                {
                    x.v = value (t);
                    EXPECT_OK (c, set_raw (c, x.c, x.v));
                    check_one (c, x, "constructing");
                    int w;
                    do w = (int) r.range (1, 5); while (w == t || (t == DISIR_VALUE_TYPE_ENUM && w == DISIR_VALUE_TYPE_STRING) || (t == DISIR_VALUE_TYPE_STRING && w == DISIR_VALUE_TYPE_ENUM));
                    Val v = value (w);
                    auto st = set_raw (c, x.c, v);
                    if (st != DISIR_STATUS_WRONG_VALUE_TYPE) c.violation (strf ("default:wrong-type:%d-as-%d", t, w), "setting a default of type %d to %s returned %s", t, v.str ().c_str (), sname (st));
                    check_one (c, x, "after a refused set");
                }
                EXPECT_OK (c, dc_finalize_keep_reference (x.c));
                check_one (c, x, "completed");
                key += x.v.str ();
                dc_putcontext (&x.c);
                c.count ("defaults");
            }
            dc_destroy (&kv);
        }
        struct disir_context *d = nullptr;
        if (!c.failed && EXPECT_OK (c, dc_begin (mc, DISIR_CONTEXT_DOCUMENTATION, &d)))
        {
            std::string want;
            for (int k = (int) r.range (1, 3); k > 0 && !c.failed; k--)
            {
                want = gen_string (r, o);
                EXPECT_OK (c, dc_set_value_string (d, want.c_str (), (int32_t) want.size ()));
            }
            EXPECT_OK (c, dc_finalize (&d));
            const char *p = nullptr; int32_t len = 0;
            if (!c.failed && EXPECT_OK (c, dc_get_documentation (mc, nullptr, &p, &len)) && std::string (p ? p : "", len) != want)
                c.violation ("documentation", "documentation reads %s, was set to %s", quote (std::string (p ? p : "", len)).c_str (), quote (want).c_str ());
            if (d) dc_destroy (&d);
        }
        dc_destroy (&mc);
    }
    if (interesting) c.nontrivial (key);
    if (c.no % 211 == 7) c.sample (strf ("%d operations on 15 entries, last value of %s: ", n, ts[0].path.c_str ()) + ts[0].v.str ());
    for (auto& t : ts) dc_putcontext (&t.c);
    dc_putcontext (&root);
    disir_config_finished (&cfg);
    disir_mold_finished (&mold);
}
