// Shared runtime of every driver: deterministic randomness, case loop, history log that survives a
// crash, counters for the evidence file, allocation account.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <memory>
#include <limits>

struct Rng
{
    uint64_t s;
    explicit Rng (uint64_t seed = 1) : s (seed) { next (); next (); }
    uint64_t next ()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // [0, n)
    uint64_t below (uint64_t n) { return n ? next () % n : 0; }
    // [a, b]
    int64_t range (int64_t a, int64_t b) { return a + (int64_t) below ((uint64_t) (b - a) + 1); }
    bool chance (int num, int den) { return (int) below (den) < num; }
    template <class T> const T& pick (const std::vector<T>& v) { return v[below (v.size ())]; }
    template <class T> T pick (std::initializer_list<T> v) { return *(v.begin () + below (v.size ())); }
};

uint64_t hash_str (const std::string& s, uint64_t h = 1469598103934665603ull);

struct Case
{
    Rng r;
    uint64_t seed;
    long no;
    bool verbose;
    bool quiet;               // counters off: the leak re-run
    bool failed = false;
    int violations = 0;
    std::string *sink = nullptr;   // set: a thread's own history; log and violations go there, counters nowhere

    // history log
    void log (const char *fmt, ...) __attribute__ ((format (printf, 2, 3)));
    // A broken property. 'key' names the kind of failure and its site, stable across seeds.
    void violation (const std::string& key, const char *fmt, ...) __attribute__ ((format (printf, 3, 4)));
    void count (const char *name, long n = 1);
    // register the case's content as distinct and non-trivial
    void nontrivial (const std::string& content);
    void nontrivial_hash (uint64_t h);
    void sample (const std::string& s);
    // skip the allocation account for this case
    bool no_leak_check = false;
};

// implemented by each driver
extern const char *PROPERTY;
extern const char *RULE;
void driver_setup ();                 // once per process
void driver_case (Case& c);
extern std::vector<std::pair<const char *, long>> REQUIRED;   // counters that must reach a minimum over the run
long driver_directed ();              // number of directed cases: the case numbers below this

std::string strf (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
std::string quote (const std::string& s);      // printable form
std::string scratch_dir ();                    // private scratch directory of this shard (removed by the runner)
void set_loglevel (int level);
extern int g_opt_verbose;
// run 'fn' with malloc number 'n' (counted from the call) failing; 0 disables. See drivers that use it.
