// C18: molds survive the trip through their JSON text.
#include "store.inc"
const char *PROPERTY = "C18";
const char *RULE = "one mold written as JSON text and read back; distinct by content of the mold; non-trivial: at least two elements";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"trips", 1200}, {"stored", 400}, {"documented", 1500}, {"versioned_documentation", 100}, {"restrictions", 2000}, {"restriction_windows", 500}, {"restriction_documentation", 200},
    {"deprecated", 300}, {"several_defaults", 1500}, {"explicit_versions", 200}, {"empty_sections", 200}, {"same_generation", 4000}, {"full_devices", 1000}, {"fractions", 200}, {"large_numbers", 50}};
long driver_directed () { return 0; }
void driver_setup () {}
static const Ver LAST {4000000000u, 0};

// The text keeps one documentation entry per element, the newest, without a version.
static void newest (std::vector<MDoc>& d)
{
    if (d.empty ()) return;
    size_t best = 0;
    for (size_t i = 1; i < d.size (); i++) if (d[best].intro < d[i].intro) best = i;
    MDoc x = d[best];
    x.intro = Ver {0, 0};
    d.assign (1, x);
}
static void normal (MEl& e)
{
    newest (e.docs);
    for (auto& r : e.res) { newest (r.docs); r.lo += 0.0; r.hi += 0.0; }     // -0 bounds like 0
    for (auto& k : e.kids) normal (k);
}
static int elements (const MEl& e) { int n = 0; for (auto& k : e.kids) n += 1 + elements (k); return n; }
static void census (Case& c, const MEl& e, bool root)
{
    if (!e.docs.empty ()) { c.count ("documented"); if (e.docs.size () > 1 || !e.docs[0].intro.zero ()) c.count ("versioned_documentation"); }
    for (auto& r : e.res)
    {
        c.count ("restrictions");
        if (!(r.intro == Ver {1, 0}) && !r.depr.zero ()) c.count ("restriction_windows");
        if (!r.docs.empty ()) { c.count ("restriction_documentation"); if (r.docs.size () > 1 || !r.docs[0].intro.zero ()) c.count ("versioned_documentation"); }
        if (r.value () && r.lo != floor (r.lo)) c.count ("fractions");
        if (fabs (r.lo) > 2147483648.0 || fabs (r.hi) > 2147483648.0) c.count ("large_numbers");
    }
    if (!e.depr.zero ()) c.count ("deprecated");
    if (e.defs.size () > 1) c.count ("several_defaults");
    if (e.section && e.kids.empty () && !root) c.count ("empty_sections");
    for (auto& k : e.kids) census (c, k, false);
}
static bool look (Case& c, struct disir_mold *mold, MMold& m)
{
    m = MMold ();
    if (!dump_mold (c, mold, m, {Ver {0, 0}, LAST})) return false;
    normal (m);
    return true;
}
static void same (Case& c, const char *how, const MMold& want, struct disir_mold *back, bool plain_docs)
{
    MMold got;
    if (!look (c, back, got)) return;
    if (got.ver != want.ver) c.violation (strf ("%s:version", how), "mold version %s came back as %s", want.ver.str ().c_str (), got.ver.str ().c_str ());
    auto d = first_difference (want, got);
    if (!d.empty ()) c.violation (strf ("%s:content", how), "written and read back differ: %s", d.c_str ());
    struct disir_collection *col = nullptr;
    auto st = disir_mold_valid (back, &col);
    if (st != DISIR_STATUS_OK) c.violation (strf ("%s:valid", how), "read back, the mold is %s", sname (st));
    if (col) { for (auto *h : collect (col)) dc_putcontext (&h); dc_collection_finished (&col); }
    (void) plain_docs;
}
// both molds generate the same configurations, and configurations of one are accepted by the other
static void behave (Case& c, const MMold& m, struct disir_mold *a, struct disir_mold *b, const GenOpt& o)
{
    auto vs = breakpoints (m);
    for (int k = 0; k < 4 && !c.failed; k++)
    {
        Ver v = vs[c.r.below (vs.size ())];
        auto raw = v.raw ();
        struct disir_config *ga = nullptr, *gb = nullptr;
        auto sa = disir_generate_config_from_mold (a, &raw, &ga), sb = disir_generate_config_from_mold (b, &raw, &gb);
        if (sa != sb) c.violation ("generate:status", "at %s the written mold generates with %s, the mold read back with %s", v.str ().c_str (), sname (sa), sname (sb));
        MConfig da, db;
        if (ga && gb && dump_config (c, ga, da) && dump_config (c, gb, db) && (da.ver != db.ver || !(da.root == db.root)))
            c.violation ("generate", "at %s the two molds generate different configurations: %s", v.str ().c_str (), first_difference (da.root, db.root).c_str ());
        if (ga) disir_config_finished (&ga);
        if (gb) disir_config_finished (&gb);
        c.count ("same_generation");
        if (c.failed) return;
        MConfig want;
        want.ver = v;
        want.root = gen_config (c.r, m, v, o);
        want.root.section = true;
        if (auto *cfg = build_config (c, b, want)) disir_config_finished (&cfg);
    }
}
void driver_case (Case& c)
{
    Rng& r = c.r;
    GenOpt o;
    o.strings = (int) r.below (3);
    o.control_chars = r.chance (1, 2);
    o.depth = (int) r.range (1, 5);
    o.width = (int) r.range (2, 6);
    o.max_min = (int) r.range (1, 4);
    o.multi_docs = r.chance (1, 3);
    MMold m = gen_mold (r, o);
    auto *mold = build_mold (c, m);
    if (!mold) return;
    census (c, m, true);
    if (r.chance (1, 3))
    {
        // a version of its own, at or above the one its elements imply
        Ver v = m.ver;
        for (auto k = r.below (3); k-- > 0;) if (r.chance (1, 2)) v.b += 1 + (uint32_t) r.below (1000); else { v.a += 1 + (uint32_t) r.below (70000); v.b = (uint32_t) r.below (3); }
        auto *ctx = dc_mold_getcontext (mold);
        auto raw = v.raw ();
        if (ctx && EXPECT_OK (c, dc_set_version (ctx, &raw)) && !(v == m.ver)) c.count ("explicit_versions");
        if (ctx) dc_putcontext (&ctx);
        m.ver = v;
    }
    MMold want = m;
    normal (want);
    MMold before;
    if (!look (c, mold, before)) { disir_mold_finished (&mold); return; }
    auto d = first_difference (want, before);
    if (!d.empty () || before.ver != m.ver) c.violation ("build", "the mold built differs from its model: %s", d.c_str ());
    Inst in;
    if (in.make (c))
    {
        std::string text;
        {
            Mem f;
            auto st = dio_json_serialize_mold (in.p, mold, f.f);
            text = f.text ();
            c.log ("mold %s\ntext %s", m.mstr ().substr (0, 8000).c_str (), quote (text).c_str ());
            if (st != DISIR_STATUS_OK) c.violation ("write", "writing a valid mold returned %s: %s", sname (st), in.error ().c_str ());
            MMold after;
            if (look (c, mold, after) && !(d = first_difference (want, after)).empty ()) c.violation ("write:changed", "writing changed the mold: %s", d.c_str ());
        }
        if (!c.failed)
        {
            Mem f (text);
            struct disir_mold *back = nullptr;
            auto st = dio_json_unserialize_mold (in.p, f.f, &back);
            if (st != DISIR_STATUS_OK || !back) c.violation ("read", "reading what was written returned %s: %s; text %s", sname (st), in.error ().c_str (), quote (text).c_str ());
            if (back && !c.failed)
            {
                same (c, "trip", want, back, !o.multi_docs);
                if (!c.failed) behave (c, m, mold, back, o);
                Mem g;
                st = dio_json_serialize_mold (in.p, back, g.f);
                if (st != DISIR_STATUS_OK) c.violation ("rewrite", "writing the mold read back returned %s", sname (st));
                else if (!c.failed)
                {
                    Mem h (g.text ());
                    struct disir_mold *again = nullptr;
                    st = dio_json_unserialize_mold (in.p, h.f, &again);
                    if (st != DISIR_STATUS_OK || !again) c.violation ("reread", "reading the second text returned %s", sname (st));
                    else same (c, "second-trip", want, again, !o.multi_docs);
                    if (again) disir_mold_finished (&again);
                }
            }
            if (back) disir_mold_finished (&back);
            c.count ("trips");
        }
        if (!c.failed && r.chance (1, 4))
        {
            std::string base = scratch_dir () + "/s", cd = base + "/conf", md = base + "/mold";
            wipe (base);
            mkdirs (cd); mkdirs (md);
            const char *id = r.chance (1, 2) ? "entry" : "some/where/entry";
            if (in.plugin (c, r.chance (1, 2) ? JSON_PLUGIN : TOML_PLUGIN, "io", "grp", cd, md))
                for (int k = 0; k < 2 && !c.failed; k++)
                {
                    struct disir_mold *back = nullptr;
                    if (!EXPECT_OK (c, disir_mold_write (in.p, "grp", id, mold))) break;
                    auto st = disir_mold_read (in.p, "grp", id, &back);
                    if (st != DISIR_STATUS_OK || !back) c.violation ("store:read", "reading the mold just written returned %s: %s", sname (st), in.error ().c_str ());
                    else same (c, "store", want, back, !o.multi_docs);
                    if (back) disir_mold_finished (&back);
                    c.count ("stored");
                }
            wipe (base);
        }
        if (!c.failed)
        {
            if (FILE *f = fopen ("/dev/full", "w"))
            {
                disir_error_clear (in.p);
                auto st = dio_json_serialize_mold (in.p, mold, f);
                fclose (f);
                c.count ("full_devices");
                if (st == DISIR_STATUS_OK) c.violation ("full-device", "writing to a full device returned OK");
                else if (in.error ().empty ()) c.violation ("full-device:silent", "writing to a full device returned %s without an error message", sname (st));
            }
            Mem g (text);
            int fd = open (strf ("/proc/self/fd/%d", fileno (g.f)).c_str (), O_WRONLY);
            FILE *wo = fdopen (fd, "w");
            struct disir_mold *back = nullptr;
            auto st = dio_json_unserialize_mold (in.p, wo, &back);
            if (st == DISIR_STATUS_OK) c.violation ("write-only", "reading from a write-only descriptor returned OK");
            if (back) disir_mold_finished (&back);
            fclose (wo);
        }
        if (elements (m) > 1) c.nontrivial (m.mstr ());
        if (c.no % 307 == 11) c.sample ("mold\n" + m.mstr ().substr (0, 600) + "\nas text\n" + text.substr (0, 900));
        in.done (c);
    }
    disir_mold_finished (&mold);
}
