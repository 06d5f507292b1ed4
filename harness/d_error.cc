// C29: error messages are complete, current and copied within bounds.
#include "store.inc"
const char *PROPERTY = "C29";
const char *RULE = "one step of a history of setting, clearing, copying and provoking errors; distinct by step, text and buffer size; non-trivial: there is a text, or a call failed";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"sets", 20000}, {"clears", 4000}, {"copies", 30000}, {"copies_fit", 8000}, {"copies_cut", 8000}, {"tiny_buffers", 3000}, {"long_texts", 1500}, {"percent_texts", 5000}, {"self_referring", 800}, {"no_text_copies", 500},
    {"instance_failures", 6000}, {"context_failures", 10000}, {"fatal_errors", 2000}, {"cleared_by_success", 500}};
long driver_directed () { return 0; }
void driver_setup () {}

// text without NUL, in every length, much of it looking like format directives
static std::string text (Rng& r)
{
    static const char *bit[] = {"%s", "%n", "%d", "%%", "%", "%1000000d", "%*d", "%ls", "a", "error", " ", "\n", "...", "'", "\"", "\xc3\xa5", "\xff", "\x01", "/", "\\n"};
    std::string s;
    size_t want = r.chance (1, 12) ? (size_t) r.range (1000, 70000) : r.chance (1, 4) ? (size_t) r.range (60, 600) : (size_t) r.range (1, 30);
    while (s.size () < want) { if (r.chance (1, 2)) s += bit[r.below (20)]; else s += (char) r.range (1, 255); }
    return s;
}
static std::string word (Rng& r)       // a legal element name
{
    std::string s;
    for (auto n = r.chance (1, 10) ? r.range (200, 3000) : r.range (1, 20); n > 0; n--) s += "abcdefghijklmnopqrstuvwxyz0123456789_"[r.below (37)];
    return s;
}
static void look (Case& c, struct disir_instance *p, const std::string *want, const char *after)
{
    const char *e = disir_error (p);
    if (!want) { if (e) c.violation (strf ("%s:text", after), "after %s the error text is %s", after, quote (e).c_str ()); return; }
    if (!e) c.violation (strf ("%s:none", after), "after %s there is no error text instead of %s", after, quote (*want).c_str ());
    else if (*want != e) c.violation (strf ("%s:text", after), "after %s the error text is %s (%zu bytes) instead of %s (%zu bytes)", after, quote (e).c_str (), strlen (e), quote (*want).c_str (), want->size ());
}
static void copy (Case& c, struct disir_instance *p, const std::string *cur)
{
    Rng& r = c.r;
    size_t len = cur ? cur->size () : 0;
    int32_t size;
    switch (r.below (6))
    {
    case 0: size = (int32_t) r.range (0, 12); break;
    case 1: case 2: size = (int32_t) len + (int32_t) r.range (-6, 6); break;
    case 3: size = (int32_t) r.below (len + 2); break;
    case 4: size = (int32_t) (len + r.range (2, 300)); break;
    default: size = r.chance (1, 4) ? (int32_t) r.range (-5, 3) : (int32_t) (len / 2);
    }
    if (size < 0 && !r.chance (1, 5)) size = 0;
    size_t real = size > 0 ? (size_t) size : 0;
    char *buf = (char *) malloc (real ? real : 1);          // exactly as large as told: a byte more is reported
    memset (buf, '~', real ? real : 1);
    int32_t told = -77;
    bool tell = r.chance (3, 4);
    c.log ("copy of %zu bytes into %d", len, size);
    auto st = disir_error_copy (p, buf, size, tell ? &told : nullptr);
    c.count ("copies");
    if (!cur) c.count ("no_text_copies");
    if (cur) c.nontrivial (strf ("copy %d ", size) + *cur);
    auto term = (const char *) memchr (buf, 0, real);
    if (size < 4)
    {
        c.count ("tiny_buffers");
        if (st != DISIR_STATUS_INSUFFICIENT_RESOURCES && !(size > (int32_t) len)) c.violation ("copy:tiny", "copying %zu bytes into %d returned %s", len, size, sname (st));
    }
    else if ((size_t) size >= len + 2)
    {
        c.count ("copies_fit");
        if (st != DISIR_STATUS_OK) c.violation ("copy:status", "copying %zu bytes into %d returned %s", len, size, sname (st));
        else if (!term || std::string (buf) != (cur ? *cur : "")) c.violation ("copy:text", "copying %zu bytes into %d gave %s", len, size, term ? quote (buf).c_str () : "no terminated text");
    }
    else if ((size_t) size <= len)
    {
        c.count ("copies_cut");
        std::string got = term ? std::string (buf) : "";
        if (st != DISIR_STATUS_INSUFFICIENT_RESOURCES) c.violation ("copy:cut-status", "copying %zu bytes into %d returned %s", len, size, sname (st));
        if (!term) c.violation ("copy:unterminated", "copying %zu bytes into %d left no terminator", len, size);
        else if (got.size () < 3 || got.compare (got.size () - 3, 3, "...")) c.violation ("copy:ellipsis", "copying %zu bytes into %d gave %s, which does not end in an ellipsis", len, size, quote (got).c_str ());
        else if (cur->compare (0, got.size () - 3, got, 0, got.size () - 3)) c.violation ("copy:prefix", "copying %zu bytes into %d gave %s, which is no prefix of %s", len, size, quote (got).c_str (), quote (*cur).c_str ());
        // a prefix may stop short of a character in the middle, not before
        else if ((int) got.size () + 1 < size - 4) c.violation ("copy:short", "copying %zu bytes into %d gave only %zu", len, size, got.size ());
    }
    else        // room for the text and its terminator only
    {
        std::string got = term ? std::string (buf) : "";
        if (!term) c.violation ("copy:unterminated", "copying %zu bytes into %d left no terminator", len, size);
        else if (st == DISIR_STATUS_OK ? got != (cur ? *cur : "") : st != DISIR_STATUS_INSUFFICIENT_RESOURCES || got.size () < 3 || got.compare (got.size () - 3, 3, "...")) c.violation ("copy:exact", "copying %zu bytes into %d returned %s with %s", len, size, sname (st), quote (got).c_str ());
    }
    if (tell && (told < (int32_t) len || told > (int32_t) len + 1)) c.violation ("copy:told", "copying %zu bytes into %d reported %d", len, size, told);
    free (buf);
    look (c, p, cur, "copying");
}
// a failing call on the instance says what it was about
static void fail_instance (Case& c, Inst& in, std::string *cur, bool& has)
{
    Rng& r = c.r;
    std::string group = r.chance (1, 3) ? std::string ("grp") : text (r), id = r.chance (1, 4) ? word (r) : text (r);
    struct disir_config *cfg = nullptr; struct disir_mold *m = nullptr;
    enum disir_status st = DISIR_STATUS_OK;
    int op = (int) r.below (4);
    bool both = false;
    c.log ("failing call %d in %s on %s", op, quote (group).c_str (), quote (id).c_str ());
    switch (op)
    {
    case 0: st = disir_config_read (in.p, group.c_str (), id.c_str (), nullptr, &cfg); both = true; break;
    case 1: st = disir_mold_read (in.p, group.c_str (), id.c_str (), &m); both = true; break;
    case 2: st = disir_config_remove (in.p, group.c_str (), id.c_str ()); break;
    default: st = disir_config_query (in.p, group.c_str (), id.c_str (), nullptr); break;
    }
    if (cfg) disir_config_finished (&cfg);
    if (m) disir_mold_finished (&m);
    if (st == DISIR_STATUS_OK || st == DISIR_STATUS_EXISTS) { has = disir_error (in.p) != nullptr; if (has) *cur = disir_error (in.p); return; }
    c.count ("instance_failures");
    c.nontrivial (strf ("fail %d ", op) + group + "|" + id);
    const char *e = disir_error (in.p);
    if (!e || !*e) { c.violation ("instance:silent", "a call on %s in %s returned %s without an error text", quote (id).c_str (), quote (group).c_str (), sname (st)); has = false; return; }
    std::string now = e;
    if (has && now == *cur && now.find (id) == std::string::npos && cur->size () > 40) c.violation ("instance:stale", "after a failing call (%s) the error text is still %s", sname (st), quote (now).c_str ());
    // the text that names what was asked for does so literally, wherever it stands in it
    if (both && st == DISIR_STATUS_NOT_EXIST && (now.find (group) == std::string::npos || now.find (id) == std::string::npos))
        c.violation ("instance:literal", "the error text for %s in %s is %s", quote (id).c_str (), quote (group).c_str (), quote (now).c_str ());
    *cur = now;
    has = true;
}
// failing calls on contexts
struct Obj { struct disir_mold *mold; struct disir_config *cfg; };
static void want_in (Case& c, const char *what, struct disir_context *ctx, enum disir_status st, const std::string& lit)
{
    c.count ("context_failures");
    const char *e = dc_context_error (ctx);
    if (st == DISIR_STATUS_OK) { c.violation (strf ("%s:status", what), "%s with %s returned OK", what, quote (lit).c_str ()); return; }
    if (!e || !*e) c.violation (strf ("%s:silent", what), "%s with %s returned %s without an error text", what, quote (lit).c_str (), sname (st));
    else if (!lit.empty () && !strstr (e, lit.c_str ())) c.violation (strf ("%s:literal", what), "%s with %s returned %s; the error text is %s", what, quote (lit).c_str (), sname (st), quote (e).c_str ());
    c.nontrivial (std::string (what) + lit);
}
static void fail_context (Case& c, Obj& o)
{
    Rng& r = c.r;
    auto *root = dc_config_getcontext (o.cfg);
    struct disir_context *k = nullptr;
    std::string t = text (r), w = "q" + word (r);
    switch (r.below (8))
    {
    case 0: case 1:
    {
        // fatal errors, one replacing the other
        if (dc_begin (root, DISIR_CONTEXT_KEYVAL, &k) != DISIR_STATUS_OK) break;
        for (int n = (int) r.range (1, 4); n > 0; n--)
        {
            t = text (r);
            int num = (int) r.range (-1000, 1000);
            auto form = r.below (3);
            std::string want = form == 0 ? t : form == 1 ? strf ("%d of ", num) + t : t + strf (" (%d)", num);
            c.log ("fatal error %s", quote (want).c_str ());
            auto st = form == 0 ? dc_fatal_error (k, "%s", t.c_str ()) : form == 1 ? dc_fatal_error (k, "%d of %s", num, t.c_str ()) : dc_fatal_error (k, "%s (%d)", t.c_str (), num);
            if (st != DISIR_STATUS_OK) c.violation ("fatal:status", "a fatal error returned %s", sname (st));
            const char *e = dc_context_error (k);
            c.count ("fatal_errors");
            c.nontrivial ("fatal " + want);
            if (!e || want != e) c.violation ("fatal:text", "after a fatal error the text is %s instead of %s", e ? quote (e).c_str () : "absent", quote (want).c_str ());
        }
        dc_destroy (&k);
        break;
    }
    case 2:
        // a name the mold does not know
        if (dc_begin (root, DISIR_CONTEXT_KEYVAL, &k) != DISIR_STATUS_OK) break;
        c.log ("unknown name %s", w.c_str ());
        want_in (c, "set-name", k, dc_set_name (k, w.c_str (), (int32_t) w.size ()), w);
        dc_destroy (&k);
        break;
    case 3:
        // a value the enumeration rejects; the last failure is the one told
        if (dc_begin (root, DISIR_CONTEXT_KEYVAL, &k) != DISIR_STATUS_OK) break;
        if (dc_set_name (k, "choice", 6) == DISIR_STATUS_OK)
            for (int n = (int) r.range (1, 3); n > 0; n--)
            {
                t = text (r);
                c.log ("value %s", quote (t).c_str ());
                want_in (c, "enum-value", k, dc_set_value_enum (k, t.c_str (), (int32_t) t.size ()), t);
            }
        dc_destroy (&k);
        break;
    case 4:
    {
        // a default that is no number
        struct disir_context *m = nullptr;
        if (dc_begin (nullptr, DISIR_CONTEXT_MOLD, &m) != DISIR_STATUS_OK) break;
        if (dc_begin (m, DISIR_CONTEXT_KEYVAL, &k) == DISIR_STATUS_OK)
        {
            dc_set_name (k, "n", 1);
            dc_set_value_type (k, r.chance (1, 2) ? DISIR_VALUE_TYPE_INTEGER : DISIR_VALUE_TYPE_FLOAT);
            t = "x" + t;                   // no number, whatever follows
            c.log ("default %s", quote (t).c_str ());
            auto st = dc_add_default (k, t.c_str (), (int32_t) t.size (), nullptr);
            want_in (c, "default-text", k, st, t);
            dc_destroy (&k);
        }
        dc_destroy (&m);
        break;
    }
    case 5:
    {
        // queries
        struct disir_context *out = nullptr;
        c.log ("query %s", w.c_str ());
        const char *was = dc_context_error (root);
        std::string old = was ? was : "";
        auto st = dc_query_resolve_context (root, "%s", &out, w.c_str ());
        const char *now = dc_context_error (root);
        if (st == DISIR_STATUS_OK || (now && old != now)) want_in (c, "query-unknown", root, st, w.size () < 200 ? w : "");
        if (out) dc_putcontext (&out);
        break;
    }
    case 6:
    {
        int64_t v;
        c.log ("keyval %s", w.c_str ());
        // not every such call sets a text; one that does says it literally
        for (int set = 0; set < 2; set++)
        {
            const char *was = dc_context_error (root);
            std::string old = was ? was : "";
            auto st = set ? disir_config_set_keyval_string (o.cfg, t.c_str (), "%s", w.c_str ()) : disir_config_get_keyval_integer (o.cfg, &v, "%s", w.c_str ());
            const char *now = dc_context_error (root);
            if (st == DISIR_STATUS_OK || (now && old != now)) want_in (c, set ? "set-unknown" : "get-unknown", root, st, w.size () < 200 ? w : "");
        }
        break;
    }
    default:
        if (dc_begin (root, DISIR_CONTEXT_KEYVAL, &k) != DISIR_STATUS_OK) break;
        if (dc_set_name (k, "number", 6) == DISIR_STATUS_OK)
        {
            int64_t v = r.range (101, 1000000);
            c.log ("value %lld", (long long) v);
            want_in (c, "integer-value", k, dc_set_value_integer (k, v), strf ("%lld", (long long) v));
            if (r.chance (1, 2)) { v = -v; want_in (c, "integer-value", k, dc_set_value_integer (k, v), strf ("%lld", (long long) v)); }
        }
        dc_destroy (&k);
    }
    dc_putcontext (&root);
}
void driver_case (Case& c)
{
    Rng& r = c.r;
    // a mold with an enumeration and a bounded number
    MMold mm;
    {
        MEl e; e.name = "choice"; e.vtype = DISIR_VALUE_TYPE_ENUM;
        for (int n = 0; n < 3; n++) { MRes q; q.type = DISIR_RESTRICTION_EXC_VALUE_ENUM; q.intro = Ver {1, 0}; q.s = strf ("one%%s%d", n); e.res.push_back (q); }
        MDef d; d.intro = Ver {1, 0}; d.v = Val::E ("one%s0"); e.defs.push_back (d);
        mm.kids.push_back (e);
        MEl i; i.name = "number"; i.vtype = DISIR_VALUE_TYPE_INTEGER;
        MRes q; q.type = DISIR_RESTRICTION_EXC_VALUE_RANGE; q.intro = Ver {1, 0}; q.lo = 1; q.hi = 100; i.res.push_back (q);
        MRes x; x.type = DISIR_RESTRICTION_INC_ENTRY_MAX; x.intro = Ver {1, 0}; x.hi = 9; i.res.push_back (x);
        d.v = Val::I (5); i.defs.push_back (d);
        mm.kids.push_back (i);
        mm.ver = Ver {1, 0};
    }
    Obj o {build_mold (c, mm), nullptr};
    std::string base = scratch_dir () + "/e";
    wipe (base);
    mkdirs (base + "/c"); mkdirs (base + "/m");
    Inst in;
    if (o.mold && EXPECT_OK (c, disir_generate_config_from_mold (o.mold, nullptr, &o.cfg)) && in.make (c) && in.plugin (c, JSON_PLUGIN, "io", "grp", base + "/c", base + "/m") && EXPECT_OK (c, disir_mold_write (in.p, "grp", "there", o.mold)) && EXPECT_OK (c, disir_config_write (in.p, "grp", "there", o.cfg)))
    {
        std::string cur;
        bool has = false;
        disir_error_clear (in.p);
        for (int n = 0; n < 60 && !c.failed; n++)
            switch (r.below (9))
            {
            case 0: case 1:
            {
                std::string t = text (r);
                int num = (int) r.range (-100000, 100000);
                auto form = r.below (4);
                bool self = has && form == 3;
                std::string want = form == 0 ? t : form == 1 ? strf ("%d: ", num) + t : self ? cur + ": " + t : t + strf ("%%[%d]", num);
                if (want.size () > 300000) { disir_error_clear (in.p); has = false; break; }
                c.log ("set %s", quote (want).c_str ());
                if (form == 0) disir_error_set (in.p, "%s", t.c_str ());
                else if (form == 1) disir_error_set (in.p, "%d: %s", num, t.c_str ());
                else if (self) { c.count ("self_referring"); disir_error_set (in.p, "%s: %s", disir_error (in.p), t.c_str ()); }
                else disir_error_set (in.p, "%s%%[%d]", t.c_str (), num);
                cur = want;
                has = true;
                c.count ("sets");
                if (want.size () > 600) c.count ("long_texts");
                if (want.find ('%') != std::string::npos) c.count ("percent_texts");
                c.nontrivial ("set " + want);
                if (n == 7) c.sample ("set " + quote (want.substr (0, 200)));
                look (c, in.p, &cur, "setting");
                break;
            }
            case 2:
                if (r.chance (1, 2)) break;
                c.log ("clear");
                disir_error_clear (in.p);
                if (r.chance (1, 4)) disir_error_clear (in.p);
                has = false;
                c.count ("clears");
                look (c, in.p, nullptr, "clearing");
                break;
            case 3: case 4: case 5: copy (c, in.p, has ? &cur : nullptr); break;
            case 6: fail_instance (c, in, &cur, has); break;
            default:
                if (r.chance (1, 10))
                {
                    // a call that succeeds leaves no error of an earlier one
                    struct disir_config *cfg = nullptr;
                    c.log ("success");
                    auto st = disir_config_read (in.p, "grp", "there", nullptr, &cfg);
                    if (st != DISIR_STATUS_OK || !cfg) c.violation ("success:status", "reading the entry returned %s", sname (st));
                    if (cfg) disir_config_finished (&cfg);
                    has = false;
                    c.count ("cleared_by_success");
                    look (c, in.p, nullptr, "a successful call");
                }
                else fail_context (c, o);
            }
    }
    if (o.cfg) disir_config_finished (&o.cfg);
    if (o.mold) disir_mold_finished (&o.mold);
    in.done (c);
    wipe (base);
}
