// C33: histories of API calls in which one allocation fails. The oracles: sanitizers and aborts; the call in
// which the failure fell reports a failure, or the rest of the history is the one without the failure; every
// object can be released and the allocation account closes.
#include "dis.hh"
#include <disir/util.h>
#include <errno.h>
#include "noted.inc"
#define PROPERTY API_PROPERTY
#define RULE API_RULE
#define REQUIRED API_REQUIRED
#define driver_directed api_directed
#define driver_setup api_setup
#define driver_case api_case
namespace api {
#include "d_api.cc"
}
#undef L
#undef PROPERTY
#undef RULE
#undef REQUIRED
#undef driver_directed
#undef driver_setup
#undef driver_case
const char *PROPERTY = "C33";
const char *RULE = "one history with one failing allocation; distinct by the call and place of the failure within the history; non-trivial: the failure fell inside a call";
std::vector<std::pair<const char *, long>> REQUIRED = {{"histories", 100}, {"faults", 3000}, {"reported", 1000}, {"tolerated", 100}, {"calls_struck", 30}};
long driver_directed () { return 0; }

static bool armed;
static long allocs, fail_at;             // the number of the allocation to fail, 0: none
static size_t struck_at;                 // length of the history when it did
static std::string *hist;
extern "C" void __sanitizer_print_stack_trace ();
static bool strike ()
{
    if (!armed) return false;
    if (++allocs != fail_at) return false;
    struck_at = hist->size ();
    if (getenv ("OOM_ONE")) __sanitizer_print_stack_trace ();
    errno = ENOMEM;
    return true;
}
extern "C" {
void *__real_malloc (size_t); void *__real_calloc (size_t, size_t); void *__real_realloc (void *, size_t); char *__real_strdup (const char *); char *__real_strndup (const char *, size_t);
void *__wrap_malloc (size_t n) { return strike () ? nullptr : __real_malloc (n); }
void *__wrap_calloc (size_t a, size_t n) { return strike () ? nullptr : __real_calloc (a, n); }
void *__wrap_realloc (void *p, size_t n) { return strike () ? nullptr : __real_realloc (p, n); }
char *__wrap_strdup (const char *s) { return strike () ? nullptr : __real_strdup (s); }
char *__wrap_strndup (const char *s, size_t n) { return strike () ? nullptr : __real_strndup (s, n); }
}
void driver_setup () { api::g_api_ready = [] { armed = true; }; }

static std::string plain (const std::string& text)          // addresses differ from run to run
{
    std::string out;
    for (size_t i = 0; i < text.size ();)
        if (text[i] == '0' && i + 2 < text.size () && text[i + 1] == 'x' && isxdigit ((unsigned char) text[i + 2]))
        { i += 2; while (i < text.size () && isxdigit ((unsigned char) text[i])) i++; out += "#"; }
        else out += text[i++];
    return out;
}
static std::string history (uint64_t seed, long at, size_t& struck)
{
    Case d {};
    std::string text;
    text.reserve (1 << 16);
    g_noted = &text;
    d.seed = seed; d.no = 1000; d.r = Rng (seed); d.quiet = false; d.sink = &text;
    hist = &text;
    allocs = 0; fail_at = at; struck_at = (size_t) -1; armed = false;
    api::api_case (d);
    armed = false;
    g_noted = nullptr;
    struck = struck_at == (size_t) -1 ? struck_at : plain (text.substr (0, struck_at)).size ();
    return plain (text);
}
static std::string line (const std::string& t, size_t at) { size_t e = t.find ('\n', at); return t.substr (at, e == std::string::npos ? e : e - at); }
static size_t line_start (const std::string& t, size_t at) { if (!at) return 0; size_t b = t.rfind ('\n', at - 1); return b == std::string::npos ? 0 : b + 1; }
extern "C" size_t __sanitizer_get_current_allocated_bytes ();
void driver_case (Case& c)
{
    Rng& r = c.r;
    uint64_t seed = r.next ();
    size_t none;
    if (const char *e = getenv ("OOM_ONE"))           // seed:allocation, to look at one history
    {
        char *q;
        uint64_t one = strtoull (e, &q, 10);
        auto t = history (one, *q ? atol (q + 1) : 0, none);
        if (!c.quiet) fprintf (stderr, "%s[struck at %zu]\n%s", t.c_str (), none, none < t.size () ? t.substr (none, 80).c_str () : "");
        return;
    }
    std::string ref = history (seed, 0, none);
    long total = allocs;
    c.count ("histories");
    if (ref.find ("\n! ") != std::string::npos) return;       // C01's business
    long points = std::min<long> (total, 60);
    for (long k = 0; k < points && !c.failed; k++)
    {
        long at = total <= 60 ? k + 1 : 1 + (long) r.below (total);
        c.log ("history %llu, allocation %ld of %ld fails", (unsigned long long) seed, at, total);
        size_t struck = 0, before = __sanitizer_get_current_allocated_bytes ();
        {
            std::string t = history (seed, at, struck);
            c.count ("faults");
            if (struck == (size_t) -1) { c.violation ("harness:nostrike", "allocation %ld was not reached", at); break; }
            // the call the failure fell in, and its result
            size_t cs = t.rfind ("CALL ", struck), ss = t.find ("=> ", struck);
            if (cs == std::string::npos || ss == std::string::npos || t.find ("=> ", cs) != ss) { c.violation ("harness:place", "the failure fell outside the recorded calls, near %s", quote (t.substr (struck > 200 ? struck - 200 : 0, 300)).c_str ()); break; }
            std::string call = line (t, cs), op = call.substr (5), status = " " + line (t, ss);
            size_t v = t.find ("\n! ", struck ? struck - 1 : 0);
            c.log ("in %s%s", call.c_str (), status.c_str ());
            if (t.compare (0, struck, ref, 0, struck) != 0) { c.violation ("harness:drift", "the histories differ before the failure"); break; }
            c.count ("calls_struck_total");
            static std::set<std::string> seen;
            if (!c.quiet && seen.insert (op).second) c.count ("calls_struck");
            c.nontrivial (call + status + strf ("%ld", at));
            if (v != std::string::npos) { c.violation ("after:" + op, "after the failure in %s%s: %s", call.c_str (), status.c_str (), line (t, v + 1).c_str ()); break; }
            if (t == ref) { c.count ("tolerated"); continue; }
            size_t d = 0;
            while (d < t.size () && d < ref.size () && t[d] == ref[d]) d++;
            size_t ds = line_start (t, d);
            bool failed = status != " => OK";
            if (ds <= ss && failed) { c.count ("reported"); continue; }
            c.violation (strf ("silent:%s", op.c_str ()), "the failure fell in %s, which returned%s; the history differs later: %s instead of %s", op.c_str (), status.c_str (),
                         quote (line (t, ds)).c_str (), quote (line (ref, line_start (ref, d))).c_str ());
        }
        size_t after = __sanitizer_get_current_allocated_bytes ();
        if (after > before) c.log ("  grew by %zu", after - before);
    }
    if (c.no % 61 == 2) c.sample (strf ("a history with %ld allocations, %ld of them failed in turn", total, points));
}
