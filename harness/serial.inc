// Round trips of configurations through a text form; SERIAL_KIND selects it.
#include "store.inc"
static enum disir_status ser (struct disir_instance *i, struct disir_config *cfg, FILE *f, int how)
{
    return SERIAL_KIND == JSON_PLUGIN ? how ? dio_json_config_fd_write (i, cfg, f) : dio_json_serialize_config (i, cfg, f) : dio_toml_serialize_config (i, cfg, f);
}
static enum disir_status deser (struct disir_instance *i, FILE *f, struct disir_mold *m, struct disir_config **cfg, int how)
{
    return SERIAL_KIND == JSON_PLUGIN ? how ? dio_json_config_fd_read (i, f, m, cfg) : dio_json_unserialize_config (i, f, m, cfg) : dio_toml_unserialize_config (i, f, m, cfg);
}
// instances of one name in order; the order between names is not kept by the text form
static Node grouped (const Node& n)
{
    Node r = n;
    for (auto& k : r.kids) k = grouped (k);
    std::stable_sort (r.kids.begin (), r.kids.end (), [] (const Node& a, const Node& b) { return a.name < b.name; });
    return r;
}
static void census (Case& c, const Node& n, int depth)
{
    std::map<std::string, int> cnt;
    for (auto& k : n.kids)
    {
        if (++cnt[k.name] == 2) c.count (k.section ? "repeated_sections" : "repeated_values");
        if (cnt[k.name] == 9) c.count ("crowds");
        if (k.section) { if (k.kids.empty ()) c.count ("empty_sections"); else c.count ("nested"); census (c, k, depth + 1); continue; }
        switch (k.v.type)
        {
        case DISIR_VALUE_TYPE_STRING:
            if (k.v.s.empty ()) c.count ("empty_strings");
            for (unsigned char x : k.v.s) if (x < 32) { c.count ("control_chars"); break; }
            for (unsigned char x : k.v.s) if (x >= 128) { c.count ("non_ascii"); break; }
            if (k.v.s.find_first_of ("\"\\") != std::string::npos) c.count ("quotes_or_backslashes");
            break;
        case DISIR_VALUE_TYPE_INTEGER: if (k.v.i > INT32_MAX || k.v.i < INT32_MIN) c.count ("wide_integers"); break;
        case DISIR_VALUE_TYPE_FLOAT:
            if (k.v.d == floor (k.v.d)) c.count ("integral_doubles");
            else if (strtod (strf ("%.15g", k.v.d).c_str (), 0) != k.v.d) c.count ("seventeen_digit_doubles");
            break;
        case DISIR_VALUE_TYPE_ENUM: c.count ("enums"); break;
        }
    }
}
static void same (Case& c, const char *how, const MConfig& want, struct disir_config *cfg)
{
    MConfig got;
    if (!dump_config (c, cfg, got)) return;
    if (!(got.ver == want.ver)) c.violation (strf ("%s:version", how), "version %s came back as %s", want.ver.str ().c_str (), got.ver.str ().c_str ());
    auto a = grouped (want.root), b = grouped (got.root);
    if (!(a == b)) c.violation (strf ("%s:content", how), "written and read back differ: %s", first_difference (a, b).c_str ());
    // what was read is independent of the text: writing it again gives the same values (checked by the caller's next trip)
    struct disir_collection *col = nullptr;
    auto st = disir_config_valid (cfg, &col);
    if (st != DISIR_STATUS_OK) c.violation (strf ("%s:valid", how), "read back, the configuration is %s", sname (st));
    if (col) { for (auto *h : collect (col)) dc_putcontext (&h); dc_collection_finished (&col); }
}
// What has no text form, and a device that takes no text, are refused with an error.
static void refusals (Case& c, Inst& in, struct disir_mold *mold, const MMold& m)
{
    Rng& r = c.r;
    GenOpt o;
    MConfig want;
    want.ver = m.ver;
    want.root = gen_config (r, m, want.ver, o);
    want.root.section = true;
    auto *cfg = build_config (c, mold, want);
    if (!cfg) return;
    for (int how = 0; how < 2 && !c.failed; how++)
    {
        FILE *f = fopen ("/dev/full", "w");
        if (!f) break;
        disir_error_clear (in.p);
        auto st = ser (in.p, cfg, f, how);
        fclose (f);
        c.count ("full_devices");
        if (st == DISIR_STATUS_OK) c.violation ("full-device", "writing to a full device returned OK");
        else if (in.error ().empty ()) c.violation ("full-device:silent", "writing to a full device returned %s without an error message", sname (st));
        // a descriptor that cannot be written
        Mem g;
        int fd = open (strf ("/proc/self/fd/%d", fileno (g.f)).c_str (), O_RDONLY);
        FILE *ro = fdopen (fd, "r");
        st = ser (in.p, cfg, ro, how);
        if (st == DISIR_STATUS_OK) c.violation ("read-only", "writing to a read-only descriptor returned OK");
        fclose (ro);
        // a descriptor that cannot be read
        Mem h;
        ser (in.p, cfg, h.f, how);
        fd = open (strf ("/proc/self/fd/%d", fileno (h.f)).c_str (), O_WRONLY);
        FILE *wo = fdopen (fd, "w");
        struct disir_config *back = nullptr;
        st = deser (in.p, wo, mold, &back, how);
        if (st == DISIR_STATUS_OK) c.violation ("write-only", "reading from a write-only descriptor returned OK");
        if (back) disir_config_finished (&back);
        fclose (wo);
    }
    // the first top-level float becomes a number with no digits
    for (auto& k : want.root.kids)
    {
        if (c.failed || k.section || k.v.type != DISIR_VALUE_TYPE_FLOAT) continue;
        static const double weird[] = {INFINITY, -INFINITY, NAN};
        double w = weird[r.below (3)];
        struct disir_context *ctx = dc_config_getcontext (cfg), *e = nullptr;
        if (!ctx) break;
        auto st = dc_find_element (ctx, k.name.c_str (), 0, &e);
        if (st == DISIR_STATUS_OK && dc_set_value_float (e, w) == DISIR_STATUS_OK)
        {
            for (int how = 0; how < 2; how++)
            {
                Mem f;
                disir_error_clear (in.p);
                st = ser (in.p, cfg, f.f, how);
                c.count ("unwritable_doubles");
                if (st == DISIR_STATUS_OK)
                {
                    // written after all: then it has to come back
                    Mem g (f.text ());
                    struct disir_config *back = nullptr;
                    double d = 0;
                    struct disir_context *bc = nullptr, *be = nullptr;
                    auto rs = deser (in.p, g.f, mold, &back, how);
                    bool same = rs == DISIR_STATUS_OK && back && (bc = dc_config_getcontext (back)) && dc_find_element (bc, k.name.c_str (), 0, &be) == DISIR_STATUS_OK
                                && dc_get_value_float (be, &d) == DISIR_STATUS_OK && (d == w || (d != d && w != w));
                    if (!same) c.violation ("unwritable", "%f was written with status OK, but does not come back: %s; text %s", w, sname (rs), quote (f.text ()).c_str ());
                    if (be) dc_putcontext (&be);
                    if (bc) dc_putcontext (&bc);
                    if (back) disir_config_finished (&back);
                }
                else if (in.error ().empty ()) c.violation ("unwritable:silent", "refused %f with %s without an error message", w, sname (st));
            }
        }
        if (e) dc_putcontext (&e);
        dc_putcontext (&ctx);
        break;
    }
    disir_config_finished (&cfg);
    (void) m;
}
void driver_case (Case& c)
{
    Rng& r = c.r;
    GenOpt o;
    o.strings = (int) r.below (3);
    o.control_chars = r.chance (1, 2);
    o.depth = (int) r.range (1, 4);
    o.width = (int) r.range (2, 6);
    o.max_min = (int) r.range (1, 4);
    SERIAL_OPT (o, r);
    MMold m = gen_mold (r, o);
    auto *mold = build_mold (c, m);
    if (!mold) return;
    auto vs = breakpoints (m);
    Inst in;
    if (in.make (c))
    {
        bool store = r.chance (1, 4);
        std::string base = scratch_dir () + "/s", cd = base + "/conf", md = base + "/mold";
        if (store)
        {
            wipe (base);
            mkdirs (cd); mkdirs (md);
            store = in.plugin (c, SERIAL_KIND, "io", "grp", cd, md) && EXPECT_OK (c, disir_mold_write (in.p, "grp", "entry", mold));
        }
        for (int k = 0; k < 4 && !c.failed; k++)
        {
            MConfig want;
            want.ver = r.chance (1, 2) ? m.ver : vs[r.below (vs.size ())];
            want.root = gen_config (r, m, want.ver, o);
            want.root.section = true;
            auto *cfg = build_config (c, mold, want);
            if (!cfg) break;
            census (c, want.root, 0);
            std::string text;
            int how = (int) r.below (2);
            {
                Mem f;
                auto st = ser (in.p, cfg, f.f, how);
                text = f.text ();
                c.log ("config %s\ntext %s", want.str ().substr (0, 6000).c_str (), quote (text).c_str ());
                if (st != DISIR_STATUS_OK) c.violation ("write", "writing a valid configuration returned %s: %s", sname (st), in.error ().c_str ());
                MConfig after;
                if (dump_config (c, cfg, after) && !(after == want)) c.violation ("write:changed", "writing changed the configuration: %s", first_difference (want.root, after.root).c_str ());
            }
            if (!c.failed)
            {
                Mem f (text);
                struct disir_config *back = nullptr;
                auto st = deser (in.p, f.f, mold, &back, how);
                if (st != DISIR_STATUS_OK || !back) c.violation ("read", "reading what was written returned %s: %s; text %s", sname (st), in.error ().c_str (), quote (text).c_str ());
                if (back && !c.failed)
                {
                    same (c, "trip", want, back);
                    // once more from the copy
                    Mem g;
                    st = ser (in.p, back, g.f, !how);
                    if (st != DISIR_STATUS_OK) c.violation ("rewrite", "writing the configuration read back returned %s", sname (st));
                    else if (!(c.failed))
                    {
                        Mem h (g.text ());
                        struct disir_config *again = nullptr;
                        st = deser (in.p, h.f, mold, &again, !how);
                        if (st != DISIR_STATUS_OK || !again) c.violation ("reread", "reading the second text returned %s", sname (st));
                        else same (c, "second-trip", want, again);
                        if (again) disir_config_finished (&again);
                    }
                }
                if (back) disir_config_finished (&back);
                c.count ("trips");
            }
            if (store && !c.failed)
            {
                // over what an earlier round left, possibly longer
                if (EXPECT_OK (c, disir_config_write (in.p, "grp", "entry", cfg)))
                {
                    struct disir_config *back = nullptr;
                    auto st = disir_config_read (in.p, "grp", "entry", mold, &back);
                    if (st != DISIR_STATUS_OK || !back) { std::string t; slurp (cd + (SERIAL_KIND == JSON_PLUGIN ? "/entry.json" : "/entry.toml"), t); c.violation ("store:read", "reading the entry just written returned %s: %s; file %s", sname (st), in.error ().c_str (), quote (t).c_str ()); }
                    else same (c, "store", want, back);
                    if (back) disir_config_finished (&back);
                    c.count ("stored");
                }
            }
            disir_config_finished (&cfg);
            if (!want.root.kids.empty ()) c.nontrivial (m.mstr () + want.str ());
            if (c.no % 307 == 11) c.sample ("configuration\n" + want.str ().substr (0, 500) + "\nas text\n" + text.substr (0, 700));
        }
        if (!c.failed) refusals (c, in, mold, m);
        if (store) wipe (base);
        in.done (c);
    }
    disir_mold_finished (&mold);
}
