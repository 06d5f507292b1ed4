// C34: threads working on separate objects. Every case gives each of several threads a script of its own over
// objects, directories and archives of its own; the same scripts also run one after the other, alone. The
// oracles are ThreadSanitizer (any race is fatal) and the comparison of each thread's history with its history alone.
#include "store.inc"
#include <disir/archive.h>
#include <disir/libdisir.h>
#include <disir/util.h>
#include <pthread.h>
#include <sched.h>
#include <atomic>
#include "noted.inc"
#define PROPERTY API_PROPERTY
#define RULE API_RULE
#define REQUIRED API_REQUIRED
#define driver_directed api_directed
#define driver_setup api_setup
#define driver_case api_case
namespace api {
#include "d_api.cc"
}
#undef L
#undef PROPERTY
#undef RULE
#undef REQUIRED
#undef driver_directed
#undef driver_setup
#undef driver_case
const char *PROPERTY = "C34";
const char *RULE = "one schedule: the order in which the threads of a case passed the steps of their scripts; non-trivial: at least two threads and 20 changes of thread between steps";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"cases", 100}, {"threads", 300}, {"steps", 10000}, {"switches", 4000}, {"api_histories", 80}, {"store_histories", 80}, {"archive_histories", 60}, {"text_histories", 60},
    {"logging", 20}, {"shared_parent", 40}, {"same_transcripts", 250}};
long driver_directed () { return 0; }
void driver_setup () { setenv ("TZ", "UTC", 1); }

extern FILE *(*g_fopen_hook) (const char *path, const char *mode);

// ---- schedule -----------------------------------------------------------------------------------
static const long EV_MAX = 1 << 16;
static std::atomic<long> ev_n;
static unsigned char ev[EV_MAX];                     // the thread of each step, in order; relaxed: no order imposed by the recording
struct Th
{
    int id = 0;
    uint64_t seed = 0, sched = 0;
    int kind = 0;
    std::string base, pub;                           // own directory; parent shared with the other threads
    std::string text;                                // its history
    bool concurrent = false;
    Rng *jitter = nullptr;
    int steps = 0;
};
static void step (Th& t)
{
    t.steps++;
    if (!t.concurrent) return;
    long i = ev_n.fetch_add (1, std::memory_order_relaxed);
    if (i < EV_MAX) __atomic_store_n (&ev[i], (unsigned char) t.id, __ATOMIC_RELAXED);
    switch (t.jitter->below (8))
    {
    case 0: sched_yield (); break;
    case 1: usleep ((useconds_t) t.jitter->below (200)); break;
    default: break;
    }
}
// ---- scripts ------------------------------------------------------------------------------------
static void say_entries (Case& c, const char *what, enum disir_status st, struct disir_entry *e)
{
    std::multiset<std::string> all;
    while (e) { auto *x = e->next; all.insert (strf ("%s[%x]", e->de_entry_name, e->de_attributes)); disir_entry_finished (&e); e = x; }
    std::string o;
    for (auto& s : all) o += " " + s;
    c.log ("%s: %s%s", what, sname (st), o.c_str ());
}
static void say_config (Case& c, const char *what, struct disir_config *cfg)
{
    MConfig got;
    if (cfg && dump_config (c, cfg, got)) c.log ("%s: %016llx", what, (unsigned long long) hash_str (got.str ()));
}
static void say_mold (Case& c, const char *what, struct disir_mold *m)
{
    MMold got;
    if (m && dump_mold (c, m, got, {Ver {0, 0}, Ver {9, 9}})) c.log ("%s: %016llx", what, (unsigned long long) hash_str (got.mstr ()));
    if (m) { struct disir_collection *col = nullptr; c.log ("valid: %s", sname (disir_mold_valid (m, &col))); if (col) { for (auto *h : collect (col)) dc_putcontext (&h); dc_collection_finished (&col); } }
}
static MMold some_mold (Case& c)
{
    GenOpt o;
    o.depth = (int) c.r.range (1, 2); o.width = (int) c.r.range (1, 4); o.strings = (int) c.r.below (3);
    return gen_mold (c.r, o);
}
static struct disir_config *some_config (Case& c, struct disir_mold *mold, const MMold& m, Ver v)
{
    GenOpt o;
    MConfig x;
    x.ver = v;
    x.root = gen_config (c.r, m, v, o);
    x.root.section = true;
    return build_config (c, mold, x);
}
static void update (Th& t, Case& c, struct disir_config *cfg)
{
    struct disir_update *up = nullptr;
    auto st = disir_update_config (cfg, nullptr, &up);
    c.log ("update: %s", sname (st));
    for (int k = 0; up && st == DISIR_STATUS_CONFLICT && k < 40; k++)
    {
        const char *n = nullptr, *kv = nullptr, *mo = nullptr;
        step (t);
        if (disir_update_conflict (up, &n, &kv, &mo) != DISIR_STATUS_OK) break;
        c.log ("conflict %s %s %s", n, kv, mo);
        std::string pick = c.r.chance (1, 2) ? kv : mo, other = mo;
        auto rs = disir_update_resolve (up, pick.c_str ());
        if (rs != DISIR_STATUS_OK) rs = disir_update_resolve (up, other.c_str ());
        c.log ("resolve: %s", sname (rs));
        st = disir_update_continue (up);
        c.log ("continue: %s", sname (st));
    }
    struct disir_config *out = nullptr;
    if (up) c.log ("finished: %s", sname (disir_update_finished (&up, &out)));
    if (out) { say_config (c, "updated", out); disir_config_finished (&out); }
}
// another value wherever one can be had without asking the restrictions
static void other_values (MEl& e)
{
    for (auto& d : e.defs)
        switch (d.v.type)
        {
        case DISIR_VALUE_TYPE_INTEGER: d.v.i ^= 1; break;
        case DISIR_VALUE_TYPE_FLOAT: d.v.d = d.v.d == 0.5 ? 1.5 : 0.5; break;
        case DISIR_VALUE_TYPE_BOOLEAN: d.v.b = !d.v.b; break;
        case DISIR_VALUE_TYPE_STRING: d.v.s += "x"; break;
        }
    for (auto& k : e.kids) other_values (k);
}
static void compare (Case& c, struct disir_context *x, struct disir_context *y)
{
    struct disir_diff_report *rep = nullptr;
    c.log ("compare: %s", sname (dc_compare (x, y, &rep)));
    if (rep) { c.count ("differences", rep->dr_entries); for (int i = 0; i < (int) rep->dr_entries; i++) c.log ("  %s", rep->dr_diff_string[i]); api::free_report (rep); }
    put (x); put (y);
}
static void s_text (Th& t, Case& c)
{
    Inst in;
    if (!in.make (c)) return;
    for (int round = 0; round < 2; round++)
    {
        auto m = some_mold (c);
        auto *mold = build_mold (c, m);
        step (t);
        if (!mold) continue;
        Mem f;
        c.log ("mold text: %s", sname (dio_json_serialize_mold (in.p, mold, f.f)));
        step (t);
        auto text = f.text ();
        c.log ("%016llx", (unsigned long long) hash_str (text));
        struct disir_mold *back = nullptr;
        rewind (f.f);
        auto st = dio_json_unserialize_mold (in.p, f.f, &back);
        c.log ("mold back: %s", sname (st));
        say_mold (c, "mold", back);
        if (back) disir_mold_finished (&back);
        auto *cfg = some_config (c, mold, m, m.ver);
        step (t);
        for (int kind = 0; cfg && kind < 2; kind++)
        {
            Mem g;
            st = kind ? dio_toml_serialize_config (in.p, cfg, g.f) : dio_json_serialize_config (in.p, cfg, g.f);
            auto tx = g.text ();
            c.log ("config text %d: %s %016llx", kind, sname (st), (unsigned long long) hash_str (tx));
            step (t);
            if (c.r.chance (1, 3) && !tx.empty ()) tx[c.r.below (tx.size ())] ^= (char) (1 << c.r.below (7));
            Mem h (tx);
            struct disir_config *again = nullptr;
            st = kind ? dio_toml_unserialize_config (in.p, h.f, mold, &again) : dio_json_unserialize_config (in.p, h.f, mold, &again);
            c.log ("back: %s: %s", sname (st), in.error ().c_str ());
            say_config (c, "config", again);
            if (again)
            {
                compare (c, dc_config_getcontext (cfg), dc_config_getcontext (again));
                disir_config_finished (&again);
            }
            step (t);
        }
        {
            auto n = m;
            other_values (n);
            if (auto *other = build_mold (c, n))
            {
                step (t);
                compare (c, dc_mold_getcontext (mold), dc_mold_getcontext (other));
                auto *oc = some_config (c, other, n, n.ver);
                if (oc && cfg) compare (c, dc_config_getcontext (cfg), dc_config_getcontext (oc));
                if (oc) disir_config_finished (&oc);
                disir_mold_finished (&other);
            }
            step (t);
        }
        if (cfg) disir_config_finished (&cfg);
        struct disir_config *gen = nullptr;
        Ver v = c.r.pick (breakpoints (m));
        struct disir_version raw; raw.sv_major = v.a; raw.sv_minor = v.b;
        c.log ("generate: %s", sname (disir_generate_config_from_mold (mold, &raw, &gen)));
        say_config (c, "generated", gen);
        step (t);
        if (gen) { update (t, c, gen); disir_config_finished (&gen); }
        disir_mold_finished (&mold);
        char buf[64]; int32_t w = 0;
        disir_error_set (in.p, "%s of %d: %.3f", "part", round, 1.5 * round);
        c.log ("error: %s", sname (disir_error_copy (in.p, buf, sizeof buf, &w)));
        c.log ("%s %d", buf, w);
        disir_log_user (in.p, "thread script %d", round);
        step (t);
    }
    in.done (c);
}
// a private installation: molds and configurations written, read, listed, queried and removed
struct Home
{
    Inst in;
    std::vector<std::pair<std::string, std::string>> entries;        // group, entry
    std::vector<struct disir_mold *> molds;
    std::vector<MMold> mm;
};
static bool home (Th& t, Case& c, Home& h, const std::string& top, const std::string& prefix)
{
    if (!h.in.make (c)) return false;
    for (int g = 0; g < 2; g++)
    {
        std::string dir = top + strf ("/deep/g%d", g);
        if (!h.in.plugin (c, g || c.r.chance (1, 3) ? JSON_PLUGIN : TOML_PLUGIN, strf ("io%d", g).c_str (), strf ("g%d", g).c_str (), dir + "/c", dir + "/m")) return false;
        step (t);
    }
    for (int k = (int) c.r.range (1, 4); k > 0; k--)
    {
        auto m = some_mold (c);
        auto *mold = build_mold (c, m);
        if (!mold) return false;
        h.molds.push_back (mold); h.mm.push_back (m);
        std::string g = strf ("g%d", (int) c.r.below (2)), e = prefix + gen_name (c.r);
        if (c.r.chance (1, 2)) e = prefix + gen_name (c.r) + "/" + e;
        step (t);
        c.log ("mold write %s %s: %s", g.c_str (), e.c_str (), sname (disir_mold_write (h.in.p, g.c_str (), e.c_str (), mold)));
        step (t);
        auto *cfg = some_config (c, mold, m, m.ver);
        if (!cfg) return false;
        c.log ("config write: %s %s", sname (disir_config_write (h.in.p, g.c_str (), e.c_str (), cfg)), h.in.error ().c_str ());
        disir_config_finished (&cfg);
        h.entries.push_back ({g, e});
    }
    return true;
}
static void close_home (Case& c, Home& h)
{
    for (auto& m : h.molds) disir_mold_finished (&m);
    h.in.done (c);
}
static void s_store (Th& t, Case& c)
{
    Home h;
    // sometimes the threads keep their own entries in common directories
    bool common = !t.pub.empty ();
    std::string prefix = strf ("t%d_", t.id);
    if (home (t, c, h, common ? t.pub : t.base, prefix))
    {
        for (int n = (int) c.r.range (8, 16); n > 0; n--)
        {
            auto& e = c.r.pick (h.entries);
            const char *g = e.first.c_str (), *id = e.second.c_str ();
            struct disir_entry *ent = nullptr;
            struct disir_mold *m = nullptr;
            struct disir_config *cfg = nullptr;
            enum disir_status st;
            step (t);
            switch (c.r.below (9))
            {
            case 0: st = disir_config_read (h.in.p, g, id, nullptr, &cfg); c.log ("read %s: %s %s", id, sname (st), h.in.error ().c_str ()); say_config (c, "config", cfg); break;
            case 1: st = disir_mold_read (h.in.p, g, id, &m); c.log ("mold read %s: %s", id, sname (st)); say_mold (c, "mold", m); break;
            case 2: st = disir_config_query (h.in.p, g, id, &ent); say_entries (c, "query", st, ent); break;
            case 3: st = disir_mold_query (h.in.p, g, id, &ent); say_entries (c, "mold query", st, ent); break;
            case 4: if (common) break; st = disir_config_entries (h.in.p, g, &ent); say_entries (c, "entries", st, ent); break;
            case 5: if (common) break; st = disir_mold_entries (h.in.p, g, &ent); say_entries (c, "mold entries", st, ent); break;
            case 6: st = disir_config_remove (h.in.p, g, id); c.log ("remove %s: %s", id, sname (st)); break;
            case 7: st = disir_config_read (h.in.p, g, (prefix + "none").c_str (), nullptr, &cfg); c.log ("none: %s %s", sname (st), h.in.error ().c_str ()); break;
            default:
                st = disir_mold_read (h.in.p, g, id, &m);
                if (m && disir_generate_config_from_mold (m, nullptr, &cfg) == DISIR_STATUS_OK) c.log ("write %s: %s", id, sname (disir_config_write (h.in.p, g, id, cfg)));
            }
            if (cfg) disir_config_finished (&cfg);
            if (m) disir_mold_finished (&m);
        }
        struct disir_plugin *pl = nullptr;
        c.log ("plugins: %s", sname (disir_plugin_registered (h.in.p, &pl)));
        while (pl) { auto *x = pl->next; c.log (" %s", pl->pl_group_id); disir_plugin_finished (&pl); pl = x; }
    }
    close_home (c, h);
}
static void s_archive (Th& t, Case& c)
{
    Home h;
    if (home (t, c, h, t.base, ""))
    {
        // archives of all threads may lie in one directory
        std::string dir = t.pub.empty () ? t.base : t.pub, path = dir + strf ("/a%d.disir", t.id);
        for (int round = 0; round < 2; round++)
        {
            struct disir_archive *ar = nullptr;
            auto st = disir_archive_export_begin (h.in.p, round ? path.c_str () : nullptr, &ar);
            c.log ("begin: %s %s", sname (st), h.in.error ().c_str ());
            step (t);
            if (!ar) break;
            for (int k = 0; k < 3; k++)
            {
                auto& e = c.r.pick (h.entries);
                if (c.r.chance (1, 3)) c.log ("group %s: %s", e.first.c_str (), sname (disir_archive_append_group (h.in.p, ar, e.first.c_str ())));
                else c.log ("entry %s: %s", e.second.c_str (), sname (disir_archive_append_entry (h.in.p, ar, e.first.c_str (), e.second.c_str ())));
                step (t);
            }
            st = disir_archive_finalize (h.in.p, path.c_str (), &ar);
            c.log ("finalize: %s %s", sname (st), h.in.error ().c_str ());
            if (ar) disir_archive_finalize (h.in.p, nullptr, &ar);
            step (t);
        }
        for (auto& e : h.entries) if (c.r.chance (1, 2)) c.log ("remove %s: %s", e.second.c_str (), sname (disir_config_remove (h.in.p, e.first.c_str (), e.second.c_str ())));
        struct disir_import *im = nullptr;
        int n = 0;
        auto st = disir_archive_import (h.in.p, path.c_str (), &im, &n);
        c.log ("import: %s %d %s", sname (st), n, h.in.error ().c_str ());
        step (t);
        for (int i = 0; im && i < n; i++)
        {
            const char *e = nullptr, *g = nullptr, *v = nullptr, *info = nullptr;
            st = disir_import_entry_status (im, i, &e, &g, &v, &info);
            c.log ("%s %s %s %s: %s", g ? g : "-", e ? e : "-", v ? v : "-", info ? info : "-", sname (st));
            auto opt = c.r.pick ({DISIR_IMPORT_UPDATE, DISIR_IMPORT_FORCE, DISIR_IMPORT_DO, DISIR_IMPORT_DISCARD});
            c.log ("resolve %d: %s", (int) opt, sname (disir_import_resolve_entry (im, i, opt)));
            step (t);
        }
        if (im)
        {
            struct import_report *rep = nullptr;
            c.log ("done: %s", sname (disir_import_finalize (h.in.p, c.r.chance (1, 5) ? DISIR_IMPORT_DISCARD : DISIR_IMPORT_DO, &im, &rep)));
            if (rep) { for (int i = 0; i < rep->ir_entries; i++) c.log (" %s", rep->ir_entry[i]); disir_import_report_destroy (&rep); }
            step (t);
        }
        for (auto& e : h.entries)
        {
            struct disir_config *cfg = nullptr;
            c.log ("read %s: %s", e.second.c_str (), sname (disir_config_read (h.in.p, e.first.c_str (), e.second.c_str (), nullptr, &cfg)));
            say_config (c, "config", cfg);
            if (cfg) disir_config_finished (&cfg);
            step (t);
        }
        // a file that is no archive
        spill (t.base + "/bad.disir", "no archive at all");
        im = nullptr;
        c.log ("bad: %s", sname (disir_archive_import (h.in.p, (t.base + "/bad.disir").c_str (), &im, &n)));
        c.log ("%s", h.in.error ().c_str ());
        if (im) disir_import_finalize (h.in.p, DISIR_IMPORT_DISCARD, &im, nullptr);
    }
    close_home (c, h);
}
// instances made from configuration files, good and bad, and handed a configuration
static void s_instance (Th& t, Case& c)
{
    mkdirs (t.base);
    for (int k = 0; k < 6; k++)
    {
        std::string f = t.base + strf ("/lib%d.json", k), text = "{\"version\":\"1.0\",\"config\":{\"plugin\":[{\"io_id\":\"x\",\"group_id\":\"g\",\"plugin_filepath\":\"" + t.base + "/none.so\",\"config_base_id\":\"c\",\"mold_base_id\":\"m\"}]}}";
        if (k % 3 == 1) text = text.substr (0, c.r.below (text.size ()));
        if (k % 3 == 2) text = "{}";
        spill (f, text);
        struct disir_instance *p = nullptr;
        auto st = disir_instance_create (f.c_str (), nullptr, &p);
        c.log ("create %d: %s", k, sname (st));
        step (t);
        if (p) { c.log ("error %s", disir_error (p) ? disir_error (p) : "-"); disir_instance_destroy (&p); }
        p = nullptr;
        struct disir_mold *m = nullptr;
        c.log ("library mold: %s", sname (disir_libdisir_mold (&m)));
        step (t);
        say_mold (c, "library", m);
        if (m)
        {
            struct disir_config *cfg = nullptr;
            c.log ("generate: %s", sname (disir_generate_config_from_mold (m, nullptr, &cfg)));
            step (t);
            if (cfg) { c.log ("create from it: %s", sname (disir_instance_create (nullptr, cfg, &p))); if (p) disir_instance_destroy (&p); else disir_config_finished (&cfg); }
            disir_mold_finished (&m);
        }
    }
}
static void *run (void *arg)
{
    Th& t = *(Th *) arg;
    Case c {};
    c.seed = t.seed;
    c.no = 1000;
    c.r = Rng (t.seed);
    c.quiet = false;
    std::string text;
    c.sink = &text;
    Rng jit (t.sched);
    t.jitter = &jit;
    t.steps = 0;
    switch (t.kind)
    {
    case 0:
        g_noted = &text;
        for (int k = 0; k < 3 && !c.failed; k++) { api::api_case (c); step (t); }
        g_noted = nullptr;
        break;
    case 1: for (int k = 0; k < 2 && !c.failed; k++) s_store (t, c); break;
    case 2: s_archive (t, c); break;
    case 3: s_text (t, c); break;
    default: s_instance (t, c);
    }
    // addresses differ from run to run
    std::string out;
    for (size_t i = 0; i < text.size ();)
        if (text[i] == '0' && i + 2 < text.size () && text[i + 1] == 'x' && isxdigit ((unsigned char) text[i + 2]))
        { i += 2; while (i < text.size () && isxdigit ((unsigned char) text[i])) i++; out += "#"; }
        else out += text[i++];
    t.text = out;
    t.jitter = nullptr;
    return nullptr;
}
static void together (std::vector<Th>& ts)
{
    std::vector<pthread_t> ids (ts.size ());
    ev_n = 0;
    for (size_t i = 0; i < ts.size (); i++) { ts[i].concurrent = true; pthread_create (&ids[i], nullptr, run, &ts[i]); }
    for (auto id : ids) pthread_join (id, nullptr);
}
void driver_case (Case& c)
{
    Rng& r = c.r;
    c.no_leak_check = true;
    std::string top = scratch_dir () + "/t";
    int n = (int) r.range (2, 6);
    bool same_kind = r.chance (1, 3), shared = r.chance (1, 2), first = r.chance (1, 2);
    bool logging = r.chance (1, 3);
    set_loglevel (logging ? 1000 : 0);
    int kind = (int) r.below (5);
    std::vector<Th> ts (n), alone;
    for (int i = 0; i < n; i++)
    {
        auto& t = ts[i];
        t.id = i;
        t.seed = r.next (); t.sched = r.next ();
        t.kind = same_kind ? kind : (int) r.below (5);
        t.base = top + strf ("/own%d", i);
        if (shared) t.pub = top + "/common";
        static const char *names[] = {"api_histories", "store_histories", "archive_histories", "text_histories", "instance_histories"};
        c.count (names[t.kind]);
    }
    if (same_kind && r.chance (1, 4)) for (auto& t : ts) t.seed = ts[0].seed;        // the very same script everywhere
    alone = ts;
    // archives need their directory; entries do not
    auto prepare = [&] { wipe (top); mkdirs (top); for (auto& t : ts) { mkdirs (t.base); if (shared && t.kind == 2) mkdirs (t.pub); } };
    if (!first) for (auto& t : alone) { prepare (); run (&t); }
    prepare ();
    together (ts);
    long m = std::min<long> (ev_n, EV_MAX), switches = 0;
    uint64_t h = 1469598103934665603ull;
    for (long i = 0; i < m; i++) { if (i && ev[i] != ev[i - 1]) switches++; h = (h ^ ev[i]) * 1099511628211ull; }
    if (first) for (auto& t : alone) { prepare (); run (&t); }
    set_loglevel (0);
    c.count ("cases"); c.count ("threads", n); c.count ("steps", m); c.count ("switches", switches);
    if (logging) c.count ("logging");
    if (shared) c.count ("shared_parent");
    for (int i = 0; i < n; i++)
    {
        auto &a = ts[i].text, &b = alone[i].text;
        if (a == b) { c.count ("same_transcripts"); continue; }
        size_t at = 0;
        while (at < a.size () && at < b.size () && a[at] == b[at]) at++;
        size_t from = a.rfind ('\n', at ? at - 1 : 0), lo = from == std::string::npos ? 0 : from + 1;
        static const char *names[] = {"api", "store", "archive", "text", "instance"};
        c.violation (strf ("differs:%s", names[ts[i].kind]), "thread %d of %d (%s, seed %llu): with the others %s, alone %s", i, n, names[ts[i].kind], (unsigned long long) ts[i].seed,
                     quote (a.substr (lo, 300)).c_str (), quote (b.substr (lo, 300)).c_str ());
    }
    if (n >= 2 && switches >= 20) c.nontrivial_hash (h);
    if (c.no % 41 == 3) c.sample (strf ("%d threads, %ld steps, %ld switches%s%s", n, m, switches, logging ? ", logging" : "", shared ? ", common parent directory" : ""));
    wipe (top);
}
