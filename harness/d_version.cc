// C30: version order and text conversion, against exact integer arithmetic and a grammar of the text form.
#include "dis.hh"
const char *PROPERTY = "C30";
const char *RULE = "a version text, pair or triple is counted distinct by content; non-trivial: not both components below 10";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"pairs", 1000}, {"triples", 1000}, {"roundtrips", 1000}, {"texts_refused", 1000}, {"texts_accepted", 200}, {"short_buffers", 500}};
long driver_directed () { return 1; }
void driver_setup () {}

static uint32_t num (Rng& r)
{
    static const std::vector<uint32_t> e = {0, 1, 2, 9, 10, 11, 99, 100, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 65535, 65536};
    return r.chance (1, 2) ? r.pick (e) : r.chance (1, 2) ? (uint32_t) r.next () : (uint32_t) r.below (20);
}
static Ver gv (Rng& r) { Ver v; v.a = num (r); v.b = num (r); return v; }
static int sgn (int x) { return x < 0 ? -1 : x > 0; }
static int cmp (Ver a, Ver b) { auto x = a.raw (), y = b.raw (); return sgn (dc_version_compare (&x, &y)); }
static int ref (Ver a, Ver b) { return a < b ? -1 : b < a ? 1 : 0; }

// <digits>.<digits>, both fitting 32 bits, nothing else
static bool parse (const std::string& s, Ver& v)
{
    size_t dot = s.find ('.');
    if (dot == std::string::npos) return false;
    for (int k = 0; k < 2; k++)
    {
        std::string p = k ? s.substr (dot + 1) : s.substr (0, dot);
        if (p.empty () || p.find_first_not_of ("0123456789") != std::string::npos) return false;
        p.erase (0, std::min (p.find_first_not_of ('0'), p.size () - 1));
        if (p.size () > 10) return false;
        unsigned long long n = strtoull (p.c_str (), 0, 10);
        if (n > 0xffffffffull) return false;
        (k ? v.b : v.a) = (uint32_t) n;
    }
    return true;
}
static std::string text (Rng& r)
{
    static const std::vector<std::string> odd = {"", ".", "1", "1.", ".1", "1..2", "1.2.3", "1.2 ", " 1.2", "1 .2", "1. 2", "-1.2", "1.-2", "+1.2",
        "1.+2", "1,2", "0x1.2", "1.0x2", "4294967296.0", "1.4294967296", "18446744073709551617.0", "1.99999999999999999999999", "1.2a", "a1.2", "1.2\n",
        "\t1.2", "1.2.", "1e2.3", "v1.2", "1.2-rc", "0.0", "00.00", "4294967295.4294967295", "9223372036854775808.1", "-0.0", "1.2/", "１.2"};
    if (r.chance (1, 3)) return r.pick (odd);
    std::string s = gv (r).str ();
    for (int n = (int) r.below (4); n > 0; n--)
    {
        size_t p = r.below (s.size () + 1);
        switch (r.below (3))
        {
        case 0: s.insert (p, 1, "0123456789.-+ x%"[r.below (16)]); break;
        case 1: if (p < s.size ()) s.erase (p, 1); break;
        default: if (p < s.size ()) s[p] = (char) r.range (1, 126);
        }
    }
    return s;
}
// What an implementation that takes the leading version of a text may make of it (blanks and signs as in C):
// 0 nothing at all, 1 the version in 'v', 2 the numbers are out of range
static int prefix (const std::string& s, Ver& v)
{
    size_t at = 0;
    for (int k = 0; k < 2; k++)
    {
        while (at < s.size () && isspace ((unsigned char) s[at])) at++;
        bool neg = false;
        if (at < s.size () && (s[at] == '+' || s[at] == '-')) neg = s[at++] == '-';
        size_t b = at;
        while (at < s.size () && isdigit ((unsigned char) s[at])) at++;
        if (at == b) return 0;
        std::string p = s.substr (b, at - b);
        p.erase (0, std::min (p.find_first_not_of ('0'), p.size () - 1));
        if (p.size () > 10) return 2;
        unsigned long long n = strtoull (p.c_str (), 0, 10);
        if (n > 0xffffffffull || (neg && n)) return 2;
        (k ? v.b : v.a) = (uint32_t) n;
        if (!k && (at >= s.size () || s[at++] != '.')) return 0;
    }
    return 1;
}
static void check_text (Case& c, const std::string& s)
{
    // exactly sized copy: an overrun is seen by the sanitizer
    std::unique_ptr<char[]> p (new char[s.size () + 1]);
    memcpy (p.get (), s.c_str (), s.size () + 1);
    disir_version v = {77, 88};
    Ver want;
    bool good = parse (s, want);
    auto st = dc_version_convert (p.get (), &v);
    c.log ("convert %s -> %s %u.%u", quote (s).c_str (), sname (st), v.sv_major, v.sv_minor);
    if (good)
    {
        c.count ("texts_accepted");
        if (st != DISIR_STATUS_OK) c.violation ("convert:refused", "%s is a version but was refused with %s", quote (s).c_str (), sname (st));
        else if (!(ver_of (v) == want)) c.violation ("convert:wrong", "%s converted to %u.%u", quote (s).c_str (), v.sv_major, v.sv_minor);
        return;
    }
    int how = prefix (s, want);
    c.count (st == DISIR_STATUS_OK ? "texts_with_trailing_accepted" : "texts_refused");
    if (st == DISIR_STATUS_OK && how == 0) c.violation ("convert:accepted", "%s holds no version but was converted to %u.%u", quote (s).c_str (), v.sv_major, v.sv_minor);
    else if (st == DISIR_STATUS_OK && how == 2) c.violation ("convert:range", "%s is out of range but was converted to %u.%u", quote (s).c_str (), v.sv_major, v.sv_minor);
    else if (st == DISIR_STATUS_OK && !(ver_of (v) == want)) c.violation ("convert:wrong", "%s converted to %u.%u", quote (s).c_str (), v.sv_major, v.sv_minor);
}
void driver_case (Case& c)
{
    auto& r = c.r;
    if (c.no == 0)
    {
        for (auto *s : {"1.0", "10.2", "1.", "1.2.3", "-1.0", "4294967295.4294967295", "4294967296.1", "1.2x"}) check_text (c, s);
        if (cmp (Ver {0xffffffff, 0}, Ver {0, 0}) != 1) c.violation ("compare:order", "4294967295.0 is not above 0.0");
    }
    Ver a = gv (r), b = r.chance (1, 4) ? a : gv (r), d = r.chance (1, 4) ? b : gv (r);
    if (r.chance (1, 4)) b.a = a.a;
    if (r.chance (1, 4)) d.a = b.a;
    for (auto& p : std::vector<std::pair<Ver, Ver>> {{a, b}, {b, a}, {b, d}, {a, d}, {a, a}})
    {
        c.count ("pairs");
        int g = cmp (p.first, p.second);
        c.log ("compare %s %s -> %d", p.first.str ().c_str (), p.second.str ().c_str (), g);
        if (g != ref (p.first, p.second))
            c.violation ("compare:order", "comparing %s with %s gives %d", p.first.str ().c_str (), p.second.str ().c_str (), g);
    }
    c.count ("triples");
    if (cmp (a, b) <= 0 && cmp (b, d) <= 0 && cmp (a, d) > 0) c.violation ("compare:transitive", "%s <= %s <= %s but not transitive", a.str ().c_str (), b.str ().c_str (), d.str ().c_str ());
    // set
    disir_version x = a.raw (), y = b.raw ();
    dc_version_set (&x, &y);
    if (!(ver_of (x) == b)) c.violation ("set", "version_set stored %s for %s", ver_of (x).str ().c_str (), b.str ().c_str ());
    // text and back, in a buffer of exactly the size announced
    std::string want = a.str ();
    for (int k = 0; k < 3; k++)
    {
        int32_t size = k == 0 ? (int32_t) want.size () + 1 : (int32_t) r.range (1, 24);
        std::unique_ptr<char[]> buf (new char[size]);
        memset (buf.get (), '#', size);
        x = a.raw ();
        char *got = dc_version_string (buf.get (), size, &x);
        c.log ("format %s into %d -> %s", want.c_str (), size, got ? got : "NULL");
        if (size > (int32_t) want.size ())
        {
            c.count ("roundtrips");
            if (!got || want != got) { c.violation ("format:wrong", "formatting %s into %d bytes gives %s", want.c_str (), size, got ? quote (got).c_str () : "NULL"); continue; }
            disir_version z = {0, 0};
            auto st = dc_version_convert (got, &z);
            if (st != DISIR_STATUS_OK || !(ver_of (z) == a)) c.violation ("roundtrip", "%s converts back to %u.%u with %s", want.c_str (), z.sv_major, z.sv_minor, sname (st));
        }
        else
        {
            c.count ("short_buffers");
            if (got) c.violation ("format:short", "formatting %s into %d bytes claims success: %s", want.c_str (), size, quote (std::string (got, strnlen (got, size))).c_str ());
        }
    }
    for (int k = 0; k < 6; k++)
    {
        auto s = text (r);
        check_text (c, s);
        c.nontrivial (s);
    }
    if (dc_version_convert (nullptr, &x) == DISIR_STATUS_OK || dc_version_convert ("1.0", nullptr) == DISIR_STATUS_OK) c.violation ("null", "NULL accepted");
    c.nontrivial (a.str () + " " + b.str () + " " + d.str ());
    c.sample (want + " vs " + b.str ());
}
