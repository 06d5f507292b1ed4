// C05: occurrence limits in force at the configuration's version.
#include "valid.inc"
const char *PROPERTY = "C05";
const char *RULE = "one configuration of one mold at one version with the instance counts planted; distinct by all three; non-trivial: at least one limit other than one and one, or a count outside its limits";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"configs_valid", 300}, {"configs_invalid", 1000}, {"limits_read", 20000}, {"nested_breaches", 500}, {"too_few", 500}, {"too_many", 500},
    {"not_at_version", 100}, {"unlimited", 1000}, {"late_refused", 500}, {"late_accepted", 500}};
long driver_directed () { return 0; }
void driver_setup () {}

static void more_limits (Rng& r, MEl& e, const std::vector<Ver>& ladder, int depth)
{
    for (auto& k : e.kids)
    {
        if (r.chance (2, 3))
        {
            k.res.erase (std::remove_if (k.res.begin (), k.res.end (), [] (const MRes& q) { return !q.value (); }), k.res.end ());
            std::vector<MRes> add;
            for (int t : {DISIR_RESTRICTION_INC_ENTRY_MIN, DISIR_RESTRICTION_INC_ENTRY_MAX})
            {
                std::set<Ver> used;
                for (int n = (int) r.range (0, 4); n > 0; n--)
                {
                    MRes x;
                    x.type = t;
                    x.intro = r.pick (ladder);
                    if (!used.insert (x.intro).second) continue;
                    double v = t == DISIR_RESTRICTION_INC_ENTRY_MIN ? (double) r.range (0, depth > 2 ? 2 : 4) : (double) r.range (0, 6);
                    if (t == DISIR_RESTRICTION_INC_ENTRY_MAX && r.chance (1, 12)) v = r.pick ({1000.0, 2147483647.0});
                    (t == DISIR_RESTRICTION_INC_ENTRY_MIN ? x.lo : x.hi) = v;
                    if (r.chance (1, 3)) { std::vector<Ver> l; for (auto w : ladder) if (w > x.intro) l.push_back (w); if (!l.empty ()) x.depr = r.pick (l); }
                    add.push_back (x);
                }
            }
            for (size_t i = 1; i < add.size (); i++) std::swap (add[i], add[r.below (i + 1)]);
            k.res.insert (r.chance (1, 2) ? k.res.begin () : k.res.end (), add.begin (), add.end ());
        }
        more_limits (r, k, ladder, depth);
    }
}
static void read_limits (Case& c, struct disir_context *h, const MEl& e, Ver v, const char *what)
{
    auto l = limits (e, v);
    int lo = -7, hi = -7;
    bool a = EXPECT_OK (c, dc_restriction_entries_minimum (h, &lo)), b = EXPECT_OK (c, dc_restriction_entries_maximum (h, &hi));
    c.count ("limits_read");
    if (a && b && (lo != l.lo || hi != l.hi)) c.violation (strf ("limits:%s", what), "limits of %s at %s read as %d..%d, in force are %d..%d: %s", e.name.c_str (), v.str ().c_str (), lo, hi, l.lo, l.hi, e.str ().c_str ());
    if (l.hi == 0) c.count ("unlimited");
}
static void mold_limits (Case& c, struct disir_context *ctx, const MEl& e, Ver v)
{
    struct disir_collection *col = nullptr;
    if (!EXPECT_OK (c, dc_get_elements (ctx, &col))) return;
    auto hs = collect (col);
    dc_collection_finished (&col);
    for (auto *h : hs)
    {
        const MEl *k = e.find (own_name (h));
        if (k) { read_limits (c, h, *k, v, "mold"); if (k->section) mold_limits (c, h, *k, v); }
        dc_putcontext (&h);
    }
}
static void mutate (Case& c, MMold& m, Node& root, Ver v, GenOpt& o)
{
    Rng& r = c.r;
    Node *at = pick_section (r, root);
    const MEl *e = mold_of (m, root, at);
    if (!e || e->kids.empty ()) return;
    auto& k = r.pick (e->kids);
    auto l = limits (k, v);
    std::vector<size_t> have;
    for (size_t i = 0; i < at->kids.size (); i++) if (at->kids[i].name == k.name) have.push_back (i);
    // aim around the limits
    long want = r.pick ({l.lo - 1l, (long) l.lo, (long) l.hi, l.hi + 1l, l.hi + 2l, 0l, (long) have.size () + 1, (long) have.size () - 1});
    if (want < 0 || want > 9) return;
    c.log ("%ld of %s in %s instead of %zu (limits %d..%d)", want, k.name.c_str (), at->name.c_str (), have.size (), l.lo, l.hi);
    while ((int) have.size () > want) { size_t j = r.below (have.size ()); at->kids.erase (at->kids.begin () + have[j]); have.clear (); for (size_t i = 0; i < at->kids.size (); i++) if (at->kids[i].name == k.name) have.push_back (i); }
    for (int n = (int) have.size (); n < want; n++)
    {
        Node x;
        if (k.section) x = gen_config (r, k, v, o);
        else { x.name = k.name; x.v = gen_accepted (r, k, v, o); }
        x.name = k.name; x.section = k.section;
        at->kids.insert (at->kids.begin () + r.below (at->kids.size () + 1), x);
    }
}
// adding to completed parents: refused exactly when the maximum is reached
static void late (Case& c, Built& b, Ver v, GenOpt& o)
{
    Rng& r = c.r;
    std::vector<struct disir_context *> secs;
    for (auto& p : b.path) if (dc_context_type (p.first) != DISIR_CONTEXT_KEYVAL && b.equiv[p.first] && !b.equiv[p.first]->kids.empty ()) secs.push_back (p.first);
    // map order depends on addresses
    std::sort (secs.begin (), secs.end (), [&] (auto *x, auto *y) { return b.path[x] < b.path[y]; });
    for (int n = (int) r.range (1, 6); n > 0 && !secs.empty () && !c.failed; n--)
    {
        auto *s = r.pick (secs);
        const MEl& k = r.pick (b.equiv[s]->kids);
        auto l = limits (k, v);
        auto count = [&] { struct disir_collection *col = nullptr; int z = 0; if (dc_find_elements (s, k.name.c_str (), &col) == DISIR_STATUS_OK) { z = dc_collection_size (col); dc_collection_finished (&col); } return z; };
        int before = count ();
        bool room = l.active && (l.hi == 0 || before < l.hi);
        Node x;
        if (k.section) x = gen_config (r, k, v, o);
        else x.v = gen_accepted (r, k, v, o);
        x.name = k.name; x.section = k.section;
        std::set<std::string> bad;
        if (x.section) invalid_parts (k, v, x, "x", bad);
        if (!bad.empty () || (!x.section && !accepts (k, v, x.v))) continue;
        struct disir_context *h = nullptr;
        if (!EXPECT_OK (c, dc_begin (s, x.section ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &h))) return;
        auto st = dc_set_name (h, x.name.c_str (), (int32_t) x.name.size ());
        if ((st == DISIR_STATUS_OK) != room) c.violation (strf ("late:set_name:%s", room ? "room" : "full"), "naming %s in the completed %s holding %d (limits %d..%d) returned %s", x.name.c_str (), b.path[s].c_str (), before, l.lo, l.hi, sname (st));
        if (st == DISIR_STATUS_OK)
        {
            bool ok = x.section || EXPECT_OK (c, set_value (h, x.v));
            for (auto& q : x.kids) ok = ok && build_node (c, h, q);
            if (ok)
            {
                auto *p = h;
                st = dc_finalize (&p);
                if (st == DISIR_STATUS_OK) h = p;
                if (st != DISIR_STATUS_OK) c.violation ("late:finalize", "completing %s in the completed %s holding %d (limits %d..%d) returned %s", x.name.c_str (), b.path[s].c_str (), before, l.lo, l.hi, sname (st));
            }
        }
        if (h) dc_destroy (&h);
        if (count () != before + (room ? 1 : 0)) c.violation ("late:count", "%s holds %d of %s after %d and an addition that %s room (limits %d..%d)", b.path[s].c_str (), count (), x.name.c_str (), before, room ? "had" : "had no", l.lo, l.hi);
        c.count (room ? "late_accepted" : "late_refused");
    }
}

void driver_case (Case& c)
{
    Rng& r = c.r;
    GenOpt o;
    o.strings = 0; o.docs = false; o.extreme_values = false; o.incl_depr = true;
    o.depth = (int) r.range (1, 4);
    o.width = o.depth > 2 ? 3 : 4;
    MMold m = gen_mold (r, o);
    std::vector<Ver> ladder = {{1, 0}};
    for (int n = (int) r.range (0, 4); n > 0; n--) ladder.push_back (gen_ver (r));
    std::sort (ladder.begin (), ladder.end ());
    ladder.erase (std::unique (ladder.begin (), ladder.end ()), ladder.end ());
    more_limits (r, m, ladder, o.depth);
    m.ver = mold_version (m);
    auto *mold = build_mold (c, m);
    if (!mold) return;
    {
        auto *ctx = dc_mold_getcontext (mold);
        mold_limits (c, ctx, m, m.ver);
        dc_putcontext (&ctx);
    }
    Ver v = r.pick (breakpoints (m));
    Node root = gen_config (r, m, v, o);
    root.name = "";
    int n = r.chance (1, 5) ? 0 : (int) r.range (1, 4);
    for (int i = 0; i < n; i++) mutate (c, m, root, v, o);
    std::set<std::string> want;
    invalid_parts (m, v, root, "", want);
    c.log ("%sat %s:\n%s", m.mstr ().substr (0, 6000).c_str (), v.str ().c_str (), root.str ().substr (0, 4000).c_str ());
    for (auto& w : want) c.log ("breaks a rule: %s", w.empty () ? "(root)" : w.c_str ());
    std::function<void (const MEl&, const Node&)> census = [&] (const MEl& e, const Node& at) {
        for (auto& k : e.kids)
        {
            int cnt = 0;
            for (auto& x : at.kids) cnt += x.name == k.name;
            auto l = limits (k, v);
            if (!l.active) { if (cnt) c.count ("not_at_version"); }
            else if (cnt < l.lo) c.count ("too_few");
            else if (l.hi && cnt > l.hi) c.count ("too_many");
        }
        for (auto& x : at.kids) if (x.section) if (auto *k = e.find (x.name)) census (*k, x);
    };
    census (m, root);
    struct disir_context *h = nullptr;
    struct disir_config *cfg = nullptr;
    bool ok = EXPECT_OK (c, dc_config_begin (mold, &h));
    auto raw = v.raw ();
    if (ok) ok = EXPECT_OK (c, dc_set_version (h, &raw));
    for (auto& k : root.kids) ok = ok && build_any (c, h, k, &m, v);
    if (ok)
    {
        auto st = dc_config_finalize (&h, &cfg);
        if (!cfg) c.violation ("finalize:object", "dc_config_finalize returned %s and no configuration", sname (st));
        if ((st == DISIR_STATUS_OK) != want.empty () || (st != DISIR_STATUS_OK && st != DISIR_STATUS_INVALID_CONTEXT))
            c.violation (strf ("finalize:%s", want.empty () ? "valid" : "invalid"), "dc_config_finalize returned %s", sname (st));
    }
    if (h) dc_destroy (&h);
    if (cfg)
    {
        auto *ctx = dc_config_getcontext (cfg);
        {
            Built b;
            map_paths (c, ctx, "", &m, b);
            struct disir_collection *col = nullptr;
            auto st = disir_config_valid (cfg, &col);
            check_verdict (c, st, col, b, want, "config");
            if (col) dc_collection_finished (&col);
            for (auto& p : b.path) if (p.first != ctx && b.equiv[p.first]) read_limits (c, p.first, *b.equiv[p.first], v, "config");
            if (!c.failed) late (c, b, v, o);
        }
        dc_putcontext (&ctx);
        c.count (want.empty () ? "configs_valid" : "configs_invalid");
        for (auto& w : want) if (!w.empty ()) { c.count ("nested_breaches"); break; }
        c.nontrivial (m.mstr () + v.str () + root.str ());
        if (c.no % 301 == 2) { std::string w; for (auto& x : want) w += (x.empty () ? "(root)" : x) + " "; c.sample ("configuration at " + v.str () + ", limits broken in: " + w); }
        disir_config_finished (&cfg);
    }
    disir_mold_finished (&mold);
}
