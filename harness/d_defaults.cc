// C08: versioned defaults and documentation.
#include "dis.hh"
const char *PROPERTY = "C08";
const char *RULE = "one entry (or documented object) with its versioned items in insertion order; distinct by items and order; non-trivial: at least two items";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"lookups", 30000}, {"older_than_all", 500}, {"between", 2000}, {"duplicates_refused", 1000}, {"destroyed", 500}, {"resets", 2000},
    {"doc_lookups", 10000}, {"doc_duplicates", 300}, {"out_of_order", 1000}};
long driver_directed () { return 0; }
void driver_setup () {}

static std::string text (const Val& v)
{
    switch (v.type)
    {
    case DISIR_VALUE_TYPE_INTEGER: return strf ("%lld", (long long) v.i);
    case DISIR_VALUE_TYPE_FLOAT: return strf ("%f", v.d);
    case DISIR_VALUE_TYPE_BOOLEAN: return v.b ? "True" : "False";
    default: return v.s;
    }
}
struct Bank { MEl e; std::vector<MDef> in; };           // e.defs sorted
static const MDef *pick_def (const MEl& e, const Ver *v) { return active_default (e, v); }
static std::vector<Ver> probes (Rng& r, const std::vector<Ver>& used)
{
    std::set<Ver> s = {{0, 0}, {0, 1}, {1, 0}, {4294967295u, 4294967295u}};
    for (auto v : used) { s.insert (v); if (v.b) s.insert ({v.a, v.b - 1}); else if (v.a) s.insert ({v.a - 1, 4294967295u}); if (v.b + 1) s.insert ({v.a, v.b + 1}); s.insert ({v.a + 1, 0}); }
    for (int i = 0; i < 3; i++) s.insert (gen_ver (r));
    std::vector<Ver> o (s.begin (), s.end ());
    return o;
}
static void lookup (Case& c, struct disir_context *kv, const MEl& e, const Ver *v, const char *what)
{
    auto *d = pick_def (e, v);
    auto raw = v ? v->raw () : disir_version {0, 0};
    std::string want = d ? text (d->v) : "";
    int32_t cap = (int32_t) (c.r.chance (1, 4) ? c.r.range (1, (int) want.size () + 3) : (int) want.size () + 1 + (int) c.r.below (40));
    std::vector<char> buf (cap, '#');
    int32_t n = -1;
    auto st = dc_get_default (kv, v ? &raw : nullptr, cap, buf.data (), &n);
    c.count ("lookups");
    if (!d) { if (st != DISIR_STATUS_DEFAULT_MISSING) c.violation (strf ("get:%s:none", what), "default of an entry without one: %s", sname (st)); return; }
    if (st != DISIR_STATUS_OK) { c.violation (strf ("get:%s:status", what), "dc_get_default at %s returned %s", v ? v->str ().c_str () : "NULL", sname (st)); return; }
    if (v && d->intro > *v) c.count ("older_than_all");
    else if (v && d->intro < *v) c.count ("between");
    size_t l = strnlen (buf.data (), cap);
    std::string got (buf.data (), l), exp = want.substr (0, cap - 1);
    if (l == (size_t) cap) c.violation (strf ("get:%s:unterminated", what), "output of %d bytes is not terminated", cap);
    else if (got != exp) c.violation (strf ("get:%s:value", what), "default at %s is %s, expected %s (introduced %s) of %s", v ? v->str ().c_str () : "NULL", quote (got).c_str (), quote (exp).c_str (), d->intro.str ().c_str (), e.str ().c_str ());
    else if ((int) want.size () < cap ? n != (int) want.size () : n < cap) c.violation (strf ("get:%s:size", what), "size %d for text of %zu in a buffer of %d", n, want.size (), cap);
}
static void listing (Case& c, struct disir_context *kv, const MEl& e)
{
    struct disir_collection *col = nullptr;
    auto st = dc_get_default_contexts (kv, &col);
    if (st != DISIR_STATUS_OK) { c.violation ("list:status", "dc_get_default_contexts returned %s", sname (st)); return; }
    auto hs = collect (col);
    dc_collection_finished (&col);
    std::string got, want;
    for (auto *h : hs)
    {
        disir_version v {0, 0};
        Val x;
        EXPECT_OK (c, dc_get_introduced (h, &v));
        EXPECT_OK (c, get_value (h, e.vtype, x));
        got += ver_of (v).str () + " " + x.str () + "; ";
        dc_putcontext (&h);
    }
    for (auto& d : e.defs) want += d.intro.str () + " " + d.v.str () + "; ";
    if (got != want) c.violation ("list", "listed %s expected %s", got.c_str (), want.c_str ());
}
static enum disir_status add (Case& c, struct disir_context *kv, const Val& v, const Ver& intro, std::string& how)
{
    auto raw = intro.raw ();
    how = "direct";
    if (v.type != DISIR_VALUE_TYPE_BOOLEAN && v.type != DISIR_VALUE_TYPE_ENUM && v.type != DISIR_VALUE_TYPE_FLOAT && c.r.chance (1, 4))
    {
        how = "text";
        auto t = text (v);
        return dc_add_default (kv, t.c_str (), (int32_t) t.size (), &raw);
    }
    if (c.r.chance (1, 2)) return add_default (kv, v, intro);
    how = "context";
    struct disir_context *h = nullptr;
    auto st = dc_begin (kv, DISIR_CONTEXT_DEFAULT, &h);
    if (st != DISIR_STATUS_OK) return st;
    st = set_value (h, v);
    if (st == DISIR_STATUS_OK) st = dc_add_introduced (h, &raw);
    if (st == DISIR_STATUS_OK)
    {
        st = dc_finalize (&h);
        if (st == DISIR_STATUS_INVALID_CONTEXT) dc_putcontext (&h);
    }
    if (h) dc_destroy (&h);
    return st;
}
static void insert (MEl& e, const Val& v, Ver intro)
{
    auto it = std::find_if (e.defs.begin (), e.defs.end (), [&] (const MDef& d) { return d.intro > intro; });
    e.defs.insert (it, {intro, v});
}

static void defaults_case (Case& c)
{
    Rng& r = c.r;
    GenOpt o;
    o.strings = 2;
    struct disir_context *root = nullptr, *sec = nullptr, *kv = nullptr;
    if (!EXPECT_OK (c, dc_mold_begin (&root))) return;
    bool nested = r.chance (1, 3);
    bool ok = true;
    if (nested) { ok = EXPECT_OK (c, dc_begin (root, DISIR_CONTEXT_SECTION, &sec)) && EXPECT_OK (c, dc_set_name (sec, "sec", 3)); }
    MEl e;
    e.name = "key";
    e.vtype = (int) r.range (1, 5);
    ok = ok && EXPECT_OK (c, dc_begin (nested ? sec : root, DISIR_CONTEXT_KEYVAL, &kv)) && EXPECT_OK (c, dc_set_name (kv, "key", 3)) && EXPECT_OK (c, dc_set_value_type (kv, (enum disir_value_type) e.vtype));
    std::vector<Ver> ladder;
    { std::set<Ver> s; for (int n = (int) r.range (1, 9); n > 0; n--) { Ver v = gen_ver (r); if (r.chance (1, 12)) v = {(uint32_t) r.next (), (uint32_t) r.next ()}; if (r.chance (1, 12)) v = {v.a, 4294967295u}; if (r.chance (1, 15)) v = {0, 1 + (uint32_t) r.below (4)}; s.insert (v); } ladder.assign (s.begin (), s.end ()); }
    std::string order;
    bool finalized = false;
    std::vector<Ver> seen;
    auto step = [&] (int k) {
        switch (k)
        {
        case 0: case 1: case 2: case 3:      // add
        {
            Ver v = r.pick (ladder);
            Val x = gen_value (r, e.vtype, o);
            if (x.type == DISIR_VALUE_TYPE_STRING || x.type == DISIR_VALUE_TYPE_ENUM) { if (x.s.empty ()) x.s = "v"; }
            bool dup = std::any_of (e.defs.begin (), e.defs.end (), [&] (const MDef& d) { return d.intro == v; });
            if (dup && !finalized) return;
            std::string how;
            auto st = add (c, kv, x, v, how);
            c.log ("add %s %s (%s): %s", v.str ().c_str (), x.str ().c_str (), how.c_str (), sname (st));
            if (dup)
            {
                c.count ("duplicates_refused");
                if (st != DISIR_STATUS_CONFLICTING_SEMVER) c.violation ("add:duplicate", "a second default at %s: %s", v.str ().c_str (), sname (st));
            }
            else if (st != DISIR_STATUS_OK) c.violation ("add", "adding a default at %s (%s) returned %s", v.str ().c_str (), how.c_str (), sname (st));
            else
            {
                if (!e.defs.empty () && v < e.defs.back ().intro) c.count ("out_of_order");
                insert (e, x, v);
                order += v.str () + x.str () + ",";
            }
            break;
        }
        case 4:                               // destroy one
        {
            if (e.defs.size () < 2) return;
            struct disir_collection *col = nullptr;
            if (!EXPECT_OK (c, dc_get_default_contexts (kv, &col))) return;
            auto hs = collect (col);
            dc_collection_finished (&col);
            size_t i = r.below (e.defs.size ());
            c.log ("destroy default %zu (%s)", i, e.defs[i].intro.str ().c_str ());
            for (size_t j = 0; j < hs.size (); j++)
            {
                if (j != i) { dc_putcontext (&hs[j]); continue; }
                EXPECT_OK (c, dc_destroy (&hs[j]));
                order += "-" + e.defs[i].intro.str () + ",";
            }
            e.defs.erase (e.defs.begin () + i);
            c.count ("destroyed");
            break;
        }
        case 5: listing (c, kv, e); break;
        default:
        {
            Ver v = r.pick (probes (r, ladder));
            lookup (c, kv, e, r.chance (1, 5) ? nullptr : &v, "mold");
        }
        }
    };
    for (int n = (int) r.range (1, 14); ok && n > 0 && !c.failed; n--) step ((int) r.below (9));
    if (ok && e.defs.empty ()) for (int k = 0; k < 20 && e.defs.empty () && !c.failed; k++) step (0);
    struct disir_mold *mold = nullptr;
    if (ok && !c.failed) { ok = EXPECT_OK (c, dc_finalize_keep_reference (kv)); finalized = ok; }
    for (int n = (int) r.range (0, 8); ok && n > 0 && !c.failed; n--) step ((int) r.below (9));
    if (ok && !c.failed && sec) ok = EXPECT_OK (c, dc_finalize (&sec));
    if (ok && !c.failed) ok = EXPECT_OK (c, dc_mold_finalize (&root, &mold));
    for (int n = (int) r.range (0, 8); ok && mold && n > 0 && !c.failed; n--) step ((int) r.below (9));
    if (ok && !c.failed)
    {
        listing (c, kv, e);
        for (auto& v : probes (r, ladder)) lookup (c, kv, e, &v, "mold");
        lookup (c, kv, e, nullptr, "mold");
    }
    // resetting a configuration's entry
    if (mold && !c.failed && r.chance (3, 4) && e.vtype != DISIR_VALUE_TYPE_ENUM)
    {
        struct disir_config *cfg = nullptr;
        auto st = disir_generate_config_from_mold (mold, nullptr, &cfg);
        if (st != DISIR_STATUS_OK) { if (!(st == DISIR_STATUS_INVALID_CONTEXT)) c.violation ("generate", "%s", sname (st)); }
        // generation keeps within element windows: an entry introduced above 1.0 exists at the newest version
        if (cfg && st == DISIR_STATUS_OK)
        {
            auto *ctx = dc_config_getcontext (cfg);
            struct disir_context *el = nullptr, *ce = nullptr;
            if (nested) { if (EXPECT_OK (c, dc_find_element (ctx, "sec", 0, &el))) EXPECT_OK (c, dc_find_element (el, "key", 0, &ce)); }
            else EXPECT_OK (c, dc_find_element (ctx, "key", 0, &ce));
            for (int n = 0; ce && n < 5 && !c.failed; n++)
            {
                Ver v = r.pick (probes (r, ladder));
                bool none = r.chance (1, 5);
                auto raw = v.raw ();
                Val x = gen_value (r, e.vtype, o), got;
                EXPECT_OK (c, set_value (ce, x));
                lookup (c, ce, e, none ? nullptr : &v, "config");
                EXPECT_OK (c, get_value (ce, e.vtype, got));
                if (got != x) c.violation ("get:changes", "asking for a default changed the entry to %s", got.str ().c_str ());
                if (!EXPECT_OK (c, dc_keyval_set_default (ce, none ? nullptr : &raw))) break;
                auto *d = pick_def (e, none ? nullptr : &v);
                EXPECT_OK (c, get_value (ce, e.vtype, got));
                if (got != d->v) c.violation ("reset", "reset at %s gives %s, expected %s", none ? "newest" : v.str ().c_str (), got.str ().c_str (), d->v.str ().c_str ());
                c.count ("resets");
            }
            put (ce); put (el);
            dc_putcontext (&ctx);
        }
        if (cfg) disir_config_finished (&cfg);
    }
    if (e.defs.size () > 1) c.nontrivial (order);
    if (c.no % 401 == 3) c.sample ("defaults in this order: " + order);
    if (kv) { if (finalized) dc_putcontext (&kv); else dc_destroy (&kv); }
    if (sec) dc_destroy (&sec);
    if (root) dc_destroy (&root);
    if (mold) disir_mold_finished (&mold);
}

// documentation: on the mold, a section, an entry or a restriction; several versions can be added side by side
static void docs_case (Case& c)
{
    Rng& r = c.r;
    GenOpt o;
    o.strings = 2; o.empty_strings = false;
    struct disir_context *root = nullptr, *sec = nullptr, *kv = nullptr, *re = nullptr;
    if (!EXPECT_OK (c, dc_mold_begin (&root))) return;
    bool ok = EXPECT_OK (c, dc_begin (root, DISIR_CONTEXT_SECTION, &sec)) && EXPECT_OK (c, dc_set_name (sec, "sec", 3))
              && EXPECT_OK (c, dc_begin (sec, DISIR_CONTEXT_KEYVAL, &kv)) && EXPECT_OK (c, dc_set_name (kv, "key", 3))
              && EXPECT_OK (c, dc_set_value_type (kv, DISIR_VALUE_TYPE_INTEGER)) && EXPECT_OK (c, dc_add_default_integer (kv, 3, nullptr))
              && EXPECT_OK (c, dc_begin (kv, DISIR_CONTEXT_RESTRICTION, &re)) && EXPECT_OK (c, dc_set_restriction_type (re, DISIR_RESTRICTION_EXC_VALUE_RANGE))
              && EXPECT_OK (c, dc_restriction_set_range (re, 1, 9));
    std::string order;
    std::vector<struct disir_context *> on = {root, sec, kv, re};
    std::map<struct disir_context *, std::vector<MDoc>> docs;
    for (auto *p : on)
    {
        if (!ok || c.failed) break;
        std::vector<std::pair<struct disir_context *, MDoc>> open;
        for (int n = (int) r.range (0, 5); n > 0 && !c.failed; n--)
        {
            if (docs[p].empty () == false && p != re) { break; }
            struct disir_context *h = nullptr;
            if (!EXPECT_OK (c, dc_begin (p, DISIR_CONTEXT_DOCUMENTATION, &h))) break;
            MDoc d;
            d.text = gen_string (r, o);
            if (d.text.empty ()) d.text = "d";
            d.intro = r.chance (1, 3) ? Ver {0, 0} : r.chance (1, 10) ? Ver {(uint32_t) r.next (), (uint32_t) r.next ()} : gen_ver (r);
            bool k = EXPECT_OK (c, dc_set_value_string (h, d.text.c_str (), (int32_t) d.text.size ()));
            auto raw = d.intro.raw ();
            if (!d.intro.zero ()) k = k && EXPECT_OK (c, dc_add_introduced (h, &raw));
            if (!k) { dc_destroy (&h); break; }
            open.push_back ({h, d});
        }
        for (size_t i = 1; i < open.size (); i++) std::swap (open[i], open[r.below (i + 1)]);
        for (auto& x : open)
        {
            bool dup = std::any_of (docs[p].begin (), docs[p].end (), [&] (const MDoc& d) { return d.intro == x.second.intro; });
            auto st = dc_finalize (&x.first);
            c.log ("documentation %s on %s: %s", x.second.intro.str ().c_str (), dc_context_type_string (p), sname (st));
            if (dup)
            {
                c.count ("doc_duplicates");
                if (st != DISIR_STATUS_CONFLICTING_SEMVER) c.violation ("doc:duplicate", "a second documentation at %s returned %s", x.second.intro.str ().c_str (), sname (st));
            }
            else if (st != DISIR_STATUS_OK) c.violation ("doc:add", "documentation at %s returned %s", x.second.intro.str ().c_str (), sname (st));
            else { docs[p].push_back (x.second); order += x.second.intro.str () + "=" + x.second.text + ","; }
            if (x.first) dc_destroy (&x.first);
        }
        order += "|";
        if (!docs[p].empty () && p != re && r.chance (1, 2))
        {
            auto st = dc_add_documentation (p, "second", 6);
            if (st != DISIR_STATUS_EXISTS) c.violation ("doc:exists", "one more documentation returned %s", sname (st));
        }
    }
    auto ask = [&] (struct disir_context *p, const char *when) {
        auto& ds = docs[p];
        std::vector<Ver> vs = {{0, 0}, {4294967295u, 4294967295u}};
        for (auto& d : ds) { vs.push_back (d.intro); if (d.intro.b) vs.push_back ({d.intro.a, d.intro.b - 1}); vs.push_back ({d.intro.a, d.intro.b + 1 ? d.intro.b + 1 : d.intro.b}); }
        vs.push_back (gen_ver (r));
        for (size_t i = 0; i <= vs.size (); i++)
        {
            bool none = i == vs.size ();
            const MDoc *best = nullptr, *first = nullptr;
            for (auto& d : ds)
            {
                if (!first || d.intro < first->intro) first = &d;
                if ((none || d.intro <= vs[i]) && (!best || best->intro < d.intro)) best = &d;
            }
            if (!best) best = first;
            const char *t = nullptr; int32_t n = -1;
            auto raw = none ? disir_version {0, 0} : vs[i].raw ();
            auto st = dc_get_documentation (p, none ? nullptr : &raw, &t, &n);
            c.count ("doc_lookups");
            if (!best) { if (st == DISIR_STATUS_OK) c.violation (strf ("doc:%s:none", when), "documentation found where there is none"); continue; }
            if (st != DISIR_STATUS_OK || !t) { c.violation (strf ("doc:%s:status", when), "at %s: %s", none ? "NULL" : vs[i].str ().c_str (), sname (st)); continue; }
            if (std::string (t) != best->text || n != (int32_t) best->text.size ()) c.violation (strf ("doc:%s:text", when), "at %s: %s, expected that of %s: %s", none ? "NULL" : vs[i].str ().c_str (), quote (t).c_str (), best->intro.str ().c_str (), quote (best->text).c_str ());
        }
    };
    if (ok && !c.failed) for (auto *p : on) ask (p, "constructing");
    struct disir_mold *mold = nullptr;
    if (ok && !c.failed)
    {
        struct disir_context *rr = re, *kk = kv, *ss = sec;
        std::vector<struct disir_context *> keep;
        bool a = EXPECT_OK (c, dc_finalize_keep_reference (rr));
        bool b = a && EXPECT_OK (c, dc_finalize_keep_reference (kk));
        bool d = b && EXPECT_OK (c, dc_finalize_keep_reference (ss));
        bool f = d && EXPECT_OK (c, dc_mold_finalize (&root, &mold));
        if (f) for (auto *p : {re, kv, sec}) ask (p, "completed");
        if (f) { auto *ctx = dc_mold_getcontext (mold); docs[ctx] = docs[on[0]]; ask (ctx, "completed"); dc_putcontext (&ctx); }
        if (a) dc_putcontext (&re);
        if (b) dc_putcontext (&kv);
        if (d) dc_putcontext (&sec);
    }
    if (re) dc_destroy (&re);
    if (kv) dc_destroy (&kv);
    if (sec) dc_destroy (&sec);
    if (root) dc_destroy (&root);
    if (mold) disir_mold_finished (&mold);
    c.nontrivial (order);
}
void driver_case (Case& c)
{
    if (c.r.chance (1, 4)) docs_case (c);
    else defaults_case (c);
}
