#include "common.hh"
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <execinfo.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes ();
extern "C" int __sanitizer_install_malloc_and_free_hooks (void (*) (const volatile void *, size_t), void (*) (const volatile void *));
extern "C" void __sanitizer_symbolize_pc (void *, const char *, char *, size_t);

extern "C" int runtime_loglevel __attribute__ ((weak));
static void loglevel (int l) { if (&runtime_loglevel) runtime_loglevel = l; }
int g_opt_verbose = 0;
static std::string g_scratch;
static FILE *g_out;                    // result lines
static std::map<std::string, long> g_counts;
static std::set<uint64_t> g_distinct;
static std::vector<std::string> g_samples;

struct Shared                          // mapped: readable by the runner after a crash
{
    volatile int64_t case_no;
    volatile int64_t rerun;
    volatile int64_t loglen;
    char log[512 * 1024];
};
static Shared *g_shared;

uint64_t hash_str (const std::string& s, uint64_t h)
{
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

std::string vstrf (const char *fmt, va_list ap)
{
    va_list cp;
    va_copy (cp, ap);
    int n = vsnprintf (nullptr, 0, fmt, cp);
    va_end (cp);
    std::string s (n > 0 ? n : 0, '\0');
    if (n > 0) vsnprintf (&s[0], n + 1, fmt, ap);
    return s;
}
std::string strf (const char *fmt, ...)
{
    va_list ap; va_start (ap, fmt);
    auto s = vstrf (fmt, ap);
    va_end (ap);
    return s;
}
std::string quote (const std::string& s)
{
    std::string o = "\"";
    size_t n = 0;
    for (unsigned char c : s)
    {
        if (++n > 400) { o += strf ("...(%zu bytes)", s.size ()); break; }
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c >= 32 && c < 127) o += (char) c;
        else o += strf ("\\x%02x", c);
    }
    return o + "\"";
}
std::string scratch_dir () { return g_scratch; }
void set_loglevel (int level) { loglevel (level); }

void Case::log (const char *fmt, ...)
{
    va_list ap; va_start (ap, fmt);
    if (sink)
    {
        char buf[4096];
        vsnprintf (buf, sizeof buf, fmt, ap);
        va_end (ap);
        *sink += buf;
        *sink += '\n';
        return;
    }
    size_t room = sizeof (g_shared->log) - g_shared->loglen;
    if (room > 4)
    {
        int n = vsnprintf (g_shared->log + g_shared->loglen, room - 2, fmt, ap);
        if (n < 0) n = 0;
        if ((size_t) n > room - 3) n = room - 3;
        g_shared->log[g_shared->loglen + n] = '\n';
        if (g_opt_verbose && !quiet) { fwrite (g_shared->log + g_shared->loglen, 1, n + 1, stderr); }
        g_shared->loglen += n + 1;
    }
    va_end (ap);
}

static std::string jsonstr (const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c >= 32 && c < 127) o += (char) c;
        else o += strf ("\\u%04x", c);
    }
    return o + "\"";
}

void Case::violation (const std::string& key, const char *fmt, ...)
{
    if (quiet) return;
    va_list ap; va_start (ap, fmt);
    auto msg = vstrf (fmt, ap);
    va_end (ap);
    failed = true;
    if (sink) { *sink += "! " + key + ": " + msg + "\n"; return; }
    if (++violations > 5) return;
    std::string hist (g_shared->log, std::min<size_t> (g_shared->loglen, 60000));
    fprintf (g_out, "V {\"key\":%s,\"case\":%ld,\"msg\":%s,\"history\":%s}\n", jsonstr (key).c_str (), no,
             jsonstr (msg).c_str (), jsonstr (hist).c_str ());
    fflush (g_out);
}
void Case::count (const char *name, long n) { if (!quiet && !sink) g_counts[name] += n; }
// collected without allocating, so that a case's allocation balance is the library's alone
static uint64_t g_pending[8192];
static size_t g_npending;
void Case::nontrivial_hash (uint64_t h)
{
    if (quiet || sink) return;
    if (g_npending < 8192) g_pending[g_npending++] = h;
    else g_distinct.insert (h);
}
void Case::nontrivial (const std::string& content) { nontrivial_hash (hash_str (content)); }
void Case::sample (const std::string& s)
{
    if (!quiet && !sink && g_samples.size () < 3) g_samples.push_back (s.substr (0, 1500));
}

// ---- allocation account -------------------------------------------------------------------------
struct LiveAlloc { void *p; size_t n; int depth; void *pc[24]; };
static const size_t LIVE_MAX = 1 << 17;
static LiveAlloc *g_live;              // open addressing
static volatile int g_hooking = 0;
static __thread int g_in_hook = 0;
static bool g_live_overflow;

static size_t slot_of (void *p) { return ((uintptr_t) p >> 4) * 0x9E3779B97F4A7C15ull >> 40; }
static void hook_malloc (const volatile void *p, size_t n)
{
    if (!g_hooking || g_in_hook || !p) return;
    g_in_hook = 1;
    size_t i = slot_of ((void *) p) % LIVE_MAX, k = 0;
    while (g_live[i].p && g_live[i].p != (void *) 1 && k++ < LIVE_MAX) i = (i + 1) % LIVE_MAX;
    if (k < LIVE_MAX)
    {
        g_live[i].p = (void *) p; g_live[i].n = n;
        g_live[i].depth = backtrace (g_live[i].pc, 24);
    }
    else g_live_overflow = true;
    g_in_hook = 0;
}
static void hook_free (const volatile void *p)
{
    if (!g_hooking || g_in_hook || !p) return;
    size_t i = slot_of ((void *) p) % LIVE_MAX, k = 0;
    while (g_live[i].p && k++ < LIVE_MAX)
    {
        if (g_live[i].p == (void *) p) { g_live[i].p = (void *) 1; return; }
        i = (i + 1) % LIVE_MAX;
    }
}
static const char *REPO_MARK = "/repo/";

static void report_leaks (Case& c)
{
    // group by first library frame
    std::map<std::string, std::pair<long, std::string>> sites;
    for (size_t i = 0; i < LIVE_MAX; i++)
    {
        if (!g_live[i].p || g_live[i].p == (void *) 1) continue;
        std::string first, stack;
        for (int d = 0; d < g_live[i].depth; d++)
        {
            char buf[1024];
            __sanitizer_symbolize_pc ((char *) g_live[i].pc[d] - 1, "%f %s:%l", buf, sizeof buf);
            std::string s (buf);
            size_t at = s.find (REPO_MARK);
            if (at != std::string::npos)
            {
                if (first.empty () && s.find ("/3rdparty/") == std::string::npos)
                {
                    first = s.substr (0, s.find_first_of (" ("));
                }
                stack += "    " + s + "\n";
            }
        }
        if (first.empty ()) continue;
        auto& e = sites[first];
        if (e.first++ == 0) e.second = stack;
    }
    bool q = c.quiet;
    c.quiet = false;
    int n = 0;
    for (auto& s : sites)
    {
        if (++n > 3) break;
        c.violation ("leak:" + s.first, "%ld block(s) still allocated after the history released every handle; first:\n%s",
                     s.second.first, s.second.second.c_str ());
    }
    c.quiet = q;
}

extern "C" const char *__asan_default_options ()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:"
           "handle_abort=1:symbolize=1:detect_odr_violation=0:quarantine_size_mb=64:max_allocation_size_mb=1024:check_printf=1:strict_string_checks=1";
}
extern "C" const char *__tsan_default_options ()
{
    return "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0:allocator_may_return_null=1";
}
extern "C" const char *__ubsan_default_options () { return "print_stacktrace=1:exitcode=99"; }

static uint64_t case_seed (uint64_t seed, long no)
{
    return hash_str (strf ("%s/%llu/%ld", PROPERTY, (unsigned long long) seed, no));
}

int main (int argc, char **argv)
{
    uint64_t seed = 1;
    long from = 0, to = 0, step = 1;
    int loglevel_opt = 0, trace_leaks = 0;
    const char *shm = nullptr, *out = nullptr, *distinct = nullptr;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto val = [&] { return i + 1 < argc ? argv[++i] : (exit (2), (char *) ""); };
        if (a == "--seed") seed = strtoull (val (), 0, 10);
        else if (a == "--from") from = atol (val ());
        else if (a == "--to") to = atol (val ());
        else if (a == "--step") step = atol (val ());
        else if (a == "--shm") shm = val ();
        else if (a == "--out") out = val ();
        else if (a == "--distinct") distinct = val ();
        else if (a == "--scratch") g_scratch = val ();
        else if (a == "--log") loglevel_opt = atoi (val ());
        else if (a == "--trace-leaks") trace_leaks = 1;
        else if (a == "-v") g_opt_verbose = 1;
        else if (a == "--info")
        {
            printf ("{\"property\":%s,\"rule\":%s,\"directed\":%ld,\"required\":{", jsonstr (PROPERTY).c_str (),
                    jsonstr (RULE).c_str (), driver_directed ());
            bool f = true;
            for (auto& q : REQUIRED) { printf ("%s%s:%ld", f ? "" : ",", jsonstr (q.first).c_str (), q.second); f = false; }
            printf ("}}\n");
            return 0;
        }
        else { fprintf (stderr, "unknown argument %s\n", a.c_str ()); return 2; }
    }
    if (g_scratch.empty ()) { g_scratch = strf ("/tmp/drv.%d", (int) getpid ()); }
    mkdir (g_scratch.c_str (), 0755);
    g_out = out ? fopen (out, "a") : stdout;
    if (!g_out) { perror ("out"); return 2; }
    if (shm)
    {
        int fd = open (shm, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate (fd, sizeof (Shared))) { perror ("shm"); return 2; }
        g_shared = (Shared *) mmap (0, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close (fd);
    }
    else g_shared = (Shared *) mmap (0, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_live = (LiveAlloc *) mmap (0, sizeof (LiveAlloc) * LIVE_MAX, PROT_READ | PROT_WRITE,
                                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    { void *w[4]; backtrace (w, 4); }
    __sanitizer_install_malloc_and_free_hooks (hook_malloc, hook_free);
    ::loglevel (loglevel_opt);
    driver_setup ();
    long done = 0;
    for (long n = from; n < to; n += step)
    {
        g_shared->rerun = 0;
        g_shared->loglen = 0;
        g_shared->case_no = n;
        Case c {};
        c.seed = seed; c.no = n; c.verbose = g_opt_verbose; c.quiet = false;
        c.r = Rng (case_seed (seed, n));
        // one case in four runs with the library's logging on (the log file itself is redirected)
        ::loglevel (loglevel_opt ? loglevel_opt : (case_seed (seed, n) >> 7) % 4 == 0 ? 1000 : 0);
        size_t before = __sanitizer_get_current_allocated_bytes ();
        driver_case (c);
        size_t after = __sanitizer_get_current_allocated_bytes ();
        done++;
        for (size_t i = 0; i < g_npending; i++) g_distinct.insert (g_pending[i]);
        g_npending = 0;
        if (!c.no_leak_check && !c.failed && (after > before || trace_leaks))
        {
            // The difference may be the harness's own containers or one-time initialisation:
            // repeat the case recording every allocation with its stack.
            g_shared->rerun = 1;
            g_shared->loglen = 0;
            Case d {};
            d.seed = seed; d.no = n; d.verbose = false; d.quiet = true;
            d.r = Rng (case_seed (seed, n));
            g_live_overflow = false;
            g_hooking = 1;
            driver_case (d);
            g_hooking = 0;
            g_counts["leak_reruns"]++;
            if (!d.no_leak_check) report_leaks (d);
            madvise (g_live, sizeof (LiveAlloc) * LIVE_MAX, MADV_DONTNEED);
        }
    }
    g_shared->case_no = -1;
    fprintf (g_out, "S {\"done\":%ld,\"counts\":{", done);
    bool f = true;
    for (auto& k : g_counts) { fprintf (g_out, "%s%s:%ld", f ? "" : ",", jsonstr (k.first).c_str (), k.second); f = false; }
    fprintf (g_out, "},\"samples\":[");
    f = true;
    for (auto& s : g_samples) { fprintf (g_out, "%s%s", f ? "" : ",", jsonstr (s).c_str ()); f = false; }
    fprintf (g_out, "]}\n");
    fflush (g_out);
    if (distinct)
    {
        FILE *d = fopen (distinct, "a");
        if (d) { for (auto h : g_distinct) fwrite (&h, 8, 1, d); fclose (d); }
    }
    return 0;
}
