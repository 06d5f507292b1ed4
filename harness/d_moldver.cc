// C09: the version of a mold, and what versions its configurations may carry.
#include "dis.hh"
const char *PROPERTY = "C09";
const char *RULE = "one building history of a mold with the versions used; distinct by the history; non-trivial: the mold's version rose at least once";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"completions", 20000}, {"rises", 4000}, {"not_rises", 4000}, {"config_accepted", 4000}, {"config_refused", 4000}, {"invalid_parts", 300}, {"after_mold_completed", 1000}};
long driver_directed () { return 0; }
void driver_setup () {}

static Ver ver (Rng& r, Ver cur)
{
    switch (r.below (7))
    {
    case 0: return {cur.a, cur.b + 1 ? cur.b + 1 : cur.b};
    case 1: return {cur.a + 1 ? cur.a + 1 : cur.a, 0};
    case 2: return {cur.a > 1 ? cur.a - 1 : 1, (uint32_t) r.below (200)};
    case 3: return {cur.a, (uint32_t) r.below ((uint64_t) cur.b + 3)};
    case 4: if (r.chance (1, 20)) return {(uint32_t) r.next () | 1, (uint32_t) r.next ()};
            return {(uint32_t) r.range (1, 12), (uint32_t) r.next () >> r.below (32)};
    default: return gen_ver (r);
    }
}
struct Open { struct disir_context *h; int type; Ver intro, depr; bool bad; };

void driver_case (Case& c)
{
    Rng& r = c.r;
    struct disir_context *root = nullptr;
    if (!EXPECT_OK (c, dc_mold_begin (&root))) return;
    struct disir_mold *mold = nullptr;
    struct disir_context *ctx = root;
    Ver cur {1, 0};
    std::string hist;
    long rises = 0;
    int serial = 0;
    bool any_invalid = false, conflict = false;
    auto check = [&] (const char *after) {
        disir_version v {7, 7};
        if (!EXPECT_OK (c, dc_get_version (ctx, &v))) return;
        if (!(ver_of (v) == cur)) c.violation (strf ("mold:%s", after), "after %s the mold's version is %s, expected %s", after, ver_of (v).str ().c_str (), cur.str ().c_str ());
        if (mold)
        {
            EXPECT_OK (c, dc_mold_get_version (mold, &v));
            if (!(ver_of (v) == cur)) c.violation ("mold:get", "dc_mold_get_version gives %s, expected %s", ver_of (v).str ().c_str (), cur.str ().c_str ());
        }
        c.count ("completions");
        if (mold) c.count ("after_mold_completed");
    };
    // what was just completed with these versions
    auto done = [&] (const char *what, std::initializer_list<Ver> vs, bool valid) {
        Ver before = cur;
        if (valid) for (auto v : vs) if (!v.zero () && v > cur) cur = v;
        hist += strf ("%s", what);
        for (auto v : vs) hist += " " + v.str ();
        hist += valid ? ";" : "(invalid);";
        c.log ("%s %s%s -> %s", what, vs.begin ()->str ().c_str (), valid ? "" : " invalid", cur.str ().c_str ());
        c.count (before == cur ? "not_rises" : "rises");
        if (!(before == cur)) rises++;
        check (what);
    };
    std::vector<Open> stack;               // open sections; contexts nest
    struct disir_context *lastkv = nullptr;        // a completed entry of the tree
    auto doc = [&] (struct disir_context *p) {
        struct disir_context *h = nullptr;
        if (dc_begin (p, DISIR_CONTEXT_DOCUMENTATION, &h) != DISIR_STATUS_OK) return;
        Ver v = r.chance (1, 3) ? Ver {0, 0} : ver (r, cur);
        auto raw = v.raw ();
        bool ok = EXPECT_OK (c, dc_set_value_string (h, "doc", 3));
        if (!v.zero ()) ok = ok && EXPECT_OK (c, dc_add_introduced (h, &raw));
        check ("begin-doc");
        ok = ok && EXPECT_OK (c, dc_finalize (&h));
        if (h) dc_destroy (&h);
        if (ok) done ("documentation", {v}, true);
    };
    auto restriction = [&] (struct disir_context *p, bool kv) {
        struct disir_context *h = nullptr;
        if (!EXPECT_OK (c, dc_begin (p, DISIR_CONTEXT_RESTRICTION, &h))) return;
        Ver v = r.chance (1, 5) ? Ver {1, 0} : ver (r, cur), d = r.chance (1, 2) ? Ver {0, 0} : ver (r, cur);
        if (!d.zero () && d <= v) std::swap (d, v);
        if (d == v) d = {0, 0};
        auto rv = v.raw (), rd = d.raw ();
        bool ok = EXPECT_OK (c, dc_set_restriction_type (h, kv ? DISIR_RESTRICTION_EXC_VALUE_RANGE : DISIR_RESTRICTION_INC_ENTRY_MAX));
        if (ok && kv) ok = EXPECT_OK (c, dc_restriction_set_range (h, -9, 9));
        if (ok && !kv) ok = EXPECT_OK (c, dc_restriction_set_numeric (h, 0));
        if (ok && !(v == Ver {1, 0})) ok = EXPECT_OK (c, dc_add_introduced (h, &rv));
        if (ok && !d.zero ()) ok = EXPECT_OK (c, dc_add_deprecated (h, &rd));
        if (ok && r.chance (1, 4)) doc (h);
        auto st = ok ? dc_finalize (&h) : DISIR_STATUS_INTERNAL_ERROR;
        // two occurrence restrictions of the same version conflict: refused, nothing changes
        if (st != DISIR_STATUS_OK && h) { conflict = true; if (st == DISIR_STATUS_INVALID_CONTEXT) any_invalid = true; st == DISIR_STATUS_INVALID_CONTEXT ? (void) dc_putcontext (&h) : (void) dc_destroy (&h); if (kv) c.violation ("restriction", "returned %s", sname (st)); done ("restriction", {v, d}, false); return; }
        if (h) dc_destroy (&h);
        if (ok) done ("restriction", {v, d}, true);
    };
    auto deflt = [&] (struct disir_context *kv, bool completed, std::set<Ver>& used) {
        Ver v = r.chance (1, 5) ? Ver {1, 0} : ver (r, cur);
        if (!used.insert (v).second && !completed) return;
        auto raw = v.raw ();
        auto st = dc_add_default_integer (kv, 3, r.chance (1, 4) && v == Ver {1, 0} ? nullptr : &raw);
        done ("default", {v}, st == DISIR_STATUS_OK);
        if (st != DISIR_STATUS_OK && st != DISIR_STATUS_CONFLICTING_SEMVER) c.violation ("default", "returned %s", sname (st));
    };
    std::set<Ver> lastused;
    auto entry = [&] (struct disir_context *p) {
        struct disir_context *h = nullptr;
        if (!EXPECT_OK (c, dc_begin (p, DISIR_CONTEXT_KEYVAL, &h))) return;
        auto name = strf ("k%d", serial++);
        bool bad = r.chance (1, 25);
        conflict = false;
        Ver d = r.chance (2, 3) ? Ver {0, 0} : ver (r, cur);
        auto rd = d.raw ();
        std::set<Ver> used;
        bool ok = EXPECT_OK (c, dc_set_name (h, name.c_str (), (int32_t) name.size ())) && EXPECT_OK (c, dc_set_value_type (h, DISIR_VALUE_TYPE_INTEGER));
        if (ok && !bad) for (int n = (int) r.range (1, 3); n > 0 && !c.failed; n--) deflt (h, false, used);
        if (ok && r.chance (1, 3)) doc (h);
        for (int n = (int) r.below (3); n > 0 && ok && !c.failed; n--) restriction (h, r.chance (1, 2));
        if (ok && !d.zero ()) ok = EXPECT_OK (c, dc_add_deprecated (h, &rd));
        auto st = ok ? dc_finalize_keep_reference (h) : DISIR_STATUS_INTERNAL_ERROR;
        if (st == DISIR_STATUS_INVALID_CONTEXT) { any_invalid = true; c.count ("invalid_parts"); dc_putcontext (&h); done ("entry", {d}, false); return; }
        if (st != DISIR_STATUS_OK) { if (!bad && !conflict) c.violation ("entry", "completing %s returned %s", name.c_str (), sname (st)); dc_destroy (&h); check ("refused-entry"); return; }
        if (bad) c.violation ("entry:bad", "an entry without default was completed");
        done ("entry", {d}, true);
        if (lastkv) dc_putcontext (&lastkv);
        lastkv = h;
        lastused = used;
    };
    auto close = [&] {
        auto o = stack.back ();
        stack.pop_back ();
        auto st = dc_finalize (&o.h);
        if (st == DISIR_STATUS_OK) done ("section", {o.intro, o.depr}, true);
        // taken over by its parent although something below it is not valid: completed all the same
        else if (st == DISIR_STATUS_INVALID_CONTEXT) { any_invalid = true; bool taken = !o.h; if (o.h) dc_putcontext (&o.h); done ("section", {o.intro, o.depr}, taken); }
        else { if (o.h) dc_destroy (&o.h); if (!mold) c.violation ("section", "returned %s", sname (st)); check ("refused-section"); }
    };
    auto step = [&] {
        auto *p = stack.empty () ? ctx : stack.back ().h;
        switch (r.below (9))
        {
        case 0:
            if (stack.size () > 3) break;
            {
                struct disir_context *h = nullptr;
                if (!EXPECT_OK (c, dc_begin (p, DISIR_CONTEXT_SECTION, &h))) break;
                auto name = strf ("s%d", serial++);
                Open o {h, 0, r.chance (1, 2) ? Ver {1, 0} : ver (r, cur), r.chance (2, 3) ? Ver {0, 0} : ver (r, cur), false};
                auto a = o.intro.raw (), b = o.depr.raw ();
                EXPECT_OK (c, dc_set_name (h, name.c_str (), (int32_t) name.size ()));
                if (!(o.intro == Ver {1, 0})) EXPECT_OK (c, dc_add_introduced (h, &a));
                if (!o.depr.zero ()) EXPECT_OK (c, dc_add_deprecated (h, &b));
                stack.push_back (o);
                check ("begin-section");
            }
            break;
        case 1: if (!stack.empty ()) close (); break;
        case 2: doc (p); break;
        case 3: if (!stack.empty ()) restriction (p, false); break;
        case 4: if (lastkv) deflt (lastkv, true, lastused); break;
        case 5: if (lastkv) restriction (lastkv, true); break;
        default: entry (p);
        }
    };
    for (int n = (int) r.range (1, 16); n > 0 && !c.failed; n--) step ();
    while (!stack.empty ()) close ();
    if (!c.failed)
    {
        auto st = dc_mold_finalize (&root, &mold);
        if (!mold) c.violation ("mold", "dc_mold_finalize returned %s", sname (st));
        else
        {
            ctx = dc_mold_getcontext (mold);
            check ("mold");
            for (int n = (int) r.below (5); n > 0 && !c.failed; n--) { step (); }
            while (!stack.empty ()) close ();
        }
    }
    // configurations
    struct disir_context *cc = nullptr;
    if (mold && !c.failed && EXPECT_OK (c, dc_config_begin (mold, &cc)))
    {
        disir_version v;
        Ver have;
        if (EXPECT_OK (c, dc_get_version (cc, &v))) have = ver_of (v);
        std::vector<Ver> ts = {{0, 0}, {0, 1}, {1, 0}, cur, {cur.a, cur.b + 1}, {cur.a + 1, 0}, {cur.a, cur.b - 1}, {cur.a - 1, 4294967295u}, {4294967295u, 0}, {cur.a + 1, cur.b}};
        for (int n = 0; n < 8 && !c.failed; n++)
        {
            Ver t = r.chance (3, 4) ? r.pick (ts) : ver (r, cur);
            auto raw = t.raw ();
            auto st = dc_set_version (cc, &raw);
            bool fine = t <= cur;
            if (st != (fine ? DISIR_STATUS_OK : DISIR_STATUS_CONFLICTING_SEMVER)) c.violation (fine ? "config:refused" : "config:accepted", "version %s on a configuration of a mold of version %s: %s", t.str ().c_str (), cur.str ().c_str (), sname (st));
            if (fine) have = t;
            EXPECT_OK (c, dc_get_version (cc, &v));
            if (!(ver_of (v) == have)) c.violation ("config:version", "the configuration has version %s, expected %s", ver_of (v).str ().c_str (), have.str ().c_str ());
            c.count (fine ? "config_accepted" : "config_refused");
        }
        dc_destroy (&cc);
    }
    if (rises) c.nontrivial (hist);
    if (c.no % 501 == 3) c.sample ("-> " + cur.str () + ": " + hist.substr (0, 800));
    if (lastkv) dc_putcontext (&lastkv);
    if (root) dc_destroy (&root);
    if (mold) { if (ctx) dc_putcontext (&ctx); disir_mold_finished (&mold); }
}
