// C07: generated configurations are valid and complete at every version.
#include "valid.inc"
const char *PROPERTY = "C07";
const char *RULE = "one mold generated at one version; distinct by both; non-trivial: at least one element generated";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"generated", 10000}, {"at_mold_version", 1000}, {"below_mold_version", 4000}, {"nested", 2000}, {"repeated", 2000}, {"absent_at_version", 1000},
    {"older_default", 1000}, {"too_new_refused", 1000}, {"bad_defaults", 120}};
long driver_directed () { return 0; }
void driver_setup () {}

static void census (Case& c, const MEl& e, Ver v, const Node& n, int depth)
{
    for (auto& k : e.kids)
    {
        int cnt = 0;
        for (auto& x : n.kids) cnt += x.name == k.name;
        if (!cnt && !el_active (k, v)) c.count ("absent_at_version");
        if (cnt > 1) c.count ("repeated");
        if (cnt && !k.section && k.defs.size () > 1 && active_default (k, &v) != &k.defs.back ()) c.count ("older_default");
    }
    for (auto& x : n.kids) if (x.section && !x.kids.empty ()) { c.count ("nested"); if (auto *k = e.find (x.name)) census (c, *k, v, x, depth + 1); }
}
static void check (Case& c, const MMold& m, Ver v, struct disir_config *cfg, const char *how)
{
    MConfig want, got;
    want.ver = v;
    want.root.section = true;
    want.root.kids = expected_content (m, v);
    struct disir_collection *col = nullptr;
    std::set<std::string> bad;
    invalid_parts (m, v, want.root, "", bad);
    auto st = disir_config_valid (cfg, &col);
    if ((st == DISIR_STATUS_OK) != bad.empty ()) c.violation (strf ("%s:valid", how), "generated at %s the configuration is %s", v.str ().c_str (), sname (st));
    if (col)
    {
        if (bad.empty ()) c.violation (strf ("%s:listing", how), "a valid generated configuration lists %d parts", dc_collection_size (col));
        for (auto *h : collect (col)) dc_putcontext (&h);
        dc_collection_finished (&col);
    }
    if (!dump_config (c, cfg, got)) return;
    if (!(got.ver == want.ver)) c.violation (strf ("%s:version", how), "version %s, expected %s", got.ver.str ().c_str (), v.str ().c_str ());
    if (!(got.root == want.root)) c.violation (strf ("%s:content", how), "at %s (expected vs generated): %s", v.str ().c_str (), first_difference (want.root, got.root).c_str ());
    c.count ("generated");
    census (c, m, v, want.root, 0);
    if (!want.root.kids.empty ()) c.nontrivial (m.mstr () + v.str ());
}
void driver_case (Case& c)
{
    Rng& r = c.r;
    GenOpt o;
    o.strings = (int) r.below (3);
    o.depth = (int) r.range (1, r.chance (1, 10) ? 6 : 4);
    o.width = o.depth > 4 ? 2 : 4;
    o.incl_depr = true;
    o.max_min = o.depth > 3 ? 2 : (int) r.range (1, 5);
    MMold m = gen_mold (r, o);
    if (r.chance (1, 5))
    {
        // defaults the mold's own restrictions do not admit: still the content asked for, but not valid
        std::function<void (MEl&)> spoil = [&] (MEl& e) {
            for (auto& k : e.kids)
            {
                if (k.section) { spoil (k); continue; }
                if (!r.chance (1, 3)) continue;
                Val x;
                auto& d = k.defs[r.below (k.defs.size ())];
                if (gen_rejected (r, k, d.intro, o, x)) { d.v = x; c.count ("bad_defaults"); }
            }
        };
        spoil (m);
    }
    c.log ("%s", m.mstr ().substr (0, 8000).c_str ());
    auto *mold = build_mold (c, m);
    if (!mold) return;
    disir_version mv;
    if (EXPECT_OK (c, dc_mold_get_version (mold, &mv)) && !(ver_of (mv) == m.ver)) c.violation ("mold-version", "mold has version %s, expected %s", ver_of (mv).str ().c_str (), m.ver.str ().c_str ());
    auto vs = breakpoints (m);
    if (vs.size () > 6) { for (size_t i = 1; i < vs.size (); i++) std::swap (vs[i], vs[r.below (i + 1)]); vs.resize (6); }
    for (size_t i = 0; i <= vs.size () && !c.failed; i++)
    {
        bool none = i == vs.size ();
        Ver v = none ? m.ver : vs[i];
        auto raw = v.raw ();
        struct disir_config *cfg = nullptr;
        std::set<std::string> bad;
        Node want;
        want.kids = expected_content (m, v);
        invalid_parts (m, v, want, "", bad);
        auto st = disir_generate_config_from_mold (mold, none ? nullptr : &raw, &cfg);
        c.log ("generate at %s: %s", none ? "(mold's)" : v.str ().c_str (), sname (st));
        auto exp = bad.empty () ? DISIR_STATUS_OK : DISIR_STATUS_INVALID_CONTEXT;
        if (st != exp || (exp == DISIR_STATUS_OK && !cfg)) c.violation (strf ("generate:%s", bad.empty () ? "valid" : "invalid"), "generating at %s returned %s, expected %s; breaches: %s", v.str ().c_str (), sname (st), sname (exp), bad.empty () ? "" : bad.begin ()->c_str ());
        if (cfg) { check (c, m, v, cfg, "generate"); disir_config_finished (&cfg); }
        if (none || v == m.ver) c.count ("at_mold_version"); else c.count ("below_mold_version");
        if (c.failed) break;
        // the same into an object under construction
        struct disir_context *h = nullptr;
        if (r.chance (1, 3) && EXPECT_OK (c, dc_config_begin (mold, &h)))
        {
            bool ok = EXPECT_OK (c, dc_set_version (h, &raw));
            st = dc_generate_from_config_root (h);
            if (st != DISIR_STATUS_OK) { c.violation ("from_root", "dc_generate_from_config_root returned %s", sname (st)); ok = false; }
            if (ok)
            {
                st = dc_config_finalize (&h, &cfg);
                if (st != exp) c.violation ("from_root:finalize", "completing returned %s, expected %s", sname (st), sname (exp));
                if (cfg) { check (c, m, v, cfg, "from_root"); disir_config_finished (&cfg); }
            }
            if (h) dc_destroy (&h);
        }
    }
    // versions above the mold's
    for (Ver v : {Ver {m.ver.a, m.ver.b + 1}, Ver {m.ver.a + 1, 0}})
    {
        struct disir_config *cfg = nullptr;
        auto raw = v.raw ();
        auto st = disir_generate_config_from_mold (mold, &raw, &cfg);
        if (st != DISIR_STATUS_CONFLICTING_SEMVER || cfg) c.violation ("too-new", "generating at %s above the mold's %s returned %s", v.str ().c_str (), m.ver.str ().c_str (), sname (st));
        if (cfg) disir_config_finished (&cfg);
        c.count ("too_new_refused");
    }
    // the configuration outlives the caller's hold on the mold
    if (!c.failed && r.chance (1, 4))
    {
        struct disir_config *cfg = nullptr;
        auto st = disir_generate_config_from_mold (mold, nullptr, &cfg);
        disir_mold_finished (&mold);
        if (cfg && st == DISIR_STATUS_OK) check (c, m, m.ver, cfg, "outlives");
        if (cfg) disir_config_finished (&cfg);
    }
    if (mold) disir_mold_finished (&mold);
    if (c.no % 301 == 5) c.sample ("mold of version " + m.ver.str () + " generated at " + strf ("%zu versions:\n", vs.size () + 1) + m.mstr ().substr (0, 600));
}
