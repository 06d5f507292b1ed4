// A JSON reader of the harness's own: strict RFC 8259; anything else is "not strict" and left unjudged.
#pragma once
#include <string>
#include <vector>
#include <utility>
#include <set>
struct JV
{
    enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
    bool b = false;
    std::string s;                                // string value, or the number's text
    std::vector<JV> a;
    std::vector<std::pair<std::string, JV>> o;
    const JV *get (const std::string& k) const { if (t != OBJ) return nullptr; for (auto& p : o) if (p.first == k) return &p.second; return nullptr; }
    JV *get (const std::string& k) { return const_cast<JV *> (((const JV *) this)->get (k)); }
    bool null () const { return t == NUL; }
    bool integral () const { return t == NUM && s.find_first_of (".eE") == std::string::npos; }
    // an integer of 64 bits
    bool int64 (int64_t& v) const
    {
        if (!integral ()) return false;
        errno = 0;
        v = strtoll (s.c_str (), nullptr, 10);
        return errno == 0;
    }
    double num () const { return strtod (s.c_str (), nullptr); }
    static JV S (const std::string& x) { JV v; v.t = STR; v.s = x; return v; }
    static JV N (const std::string& x) { JV v; v.t = NUM; v.s = x; return v; }
    static JV B (bool x) { JV v; v.t = BOOL; v.b = x; return v; }
    static JV A (std::vector<JV> x = {}) { JV v; v.t = ARR; v.a = x; return v; }
    static JV O () { JV v; v.t = OBJ; return v; }
    JV& set (const std::string& k, const JV& x) { for (auto& p : o) if (p.first == k) { p.second = x; return *this; } o.emplace_back (k, x); return *this; }
    void erase (const std::string& k) { for (size_t i = 0; i < o.size (); i++) if (o[i].first == k) { o.erase (o.begin () + i); return; } }
};
struct JParse
{
    const std::string& t; size_t at = 0; bool dup = false; int depth = 0;
    explicit JParse (const std::string& x) : t (x) {}
    void ws () { while (at < t.size () && (t[at] == ' ' || t[at] == '\t' || t[at] == '\n' || t[at] == '\r')) at++; }
    bool lit (const char *w) { size_t n = strlen (w); if (t.compare (at, n, w)) return false; at += n; return true; }
    bool hex4 (unsigned& u) { if (at + 4 > t.size ()) return false; u = 0; for (int i = 0; i < 4; i++) { char c = t[at++]; u = u * 16 + (c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99999); if (u > 0xffff) return false; } return true; }
    static void utf8 (std::string& o, unsigned u)
    {
        if (u < 0x80) o += (char) u;
        else if (u < 0x800) { o += (char) (0xc0 | u >> 6); o += (char) (0x80 | (u & 63)); }
        else if (u < 0x10000) { o += (char) (0xe0 | u >> 12); o += (char) (0x80 | (u >> 6 & 63)); o += (char) (0x80 | (u & 63)); }
        else { o += (char) (0xf0 | u >> 18); o += (char) (0x80 | (u >> 12 & 63)); o += (char) (0x80 | (u >> 6 & 63)); o += (char) (0x80 | (u & 63)); }
    }
    bool str (std::string& o)
    {
        if (at >= t.size () || t[at] != '"') return false;
        at++;
        while (at < t.size ())
        {
            unsigned char c = t[at++];
            if (c == '"') return true;
            if (c < 32) return false;
            if (c != '\\') { o += (char) c; continue; }
            if (at >= t.size ()) return false;
            c = t[at++];
            switch (c)
            {
            case '"': case '\\': case '/': o += (char) c; break;
            case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
            case 'u':
            {
                unsigned u, l;
                if (!hex4 (u)) return false;
                if (u >= 0xdc00 && u < 0xe000) return false;
                if (u >= 0xd800 && u < 0xdc00)
                {
                    if (!lit ("\\u") || !hex4 (l) || l < 0xdc00 || l >= 0xe000) return false;
                    u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
                }
                utf8 (o, u);
                break;
            }
            default: return false;
            }
        }
        return false;
    }
    bool digits () { size_t b = at; while (at < t.size () && t[at] >= '0' && t[at] <= '9') at++; return at > b; }
    bool value (JV& v)
    {
        if (++depth > 900) return false;
        bool r = value_ (v);
        depth--;
        return r;
    }
    bool value_ (JV& v)
    {
        ws ();
        if (at >= t.size ()) return false;
        char c = t[at];
        if (c == '"') { v.t = JV::STR; return str (v.s); }
        if (c == 't') { v = JV::B (true); return lit ("true"); }
        if (c == 'f') { v = JV::B (false); return lit ("false"); }
        if (c == 'n') { v = JV (); return lit ("null"); }
        if (c == '[')
        {
            v.t = JV::ARR; at++; ws ();
            if (at < t.size () && t[at] == ']') { at++; return true; }
            for (;;)
            {
                v.a.emplace_back ();
                if (!value (v.a.back ())) return false;
                ws ();
                if (at >= t.size ()) return false;
                if (t[at] == ']') { at++; return true; }
                if (t[at++] != ',') return false;
            }
        }
        if (c == '{')
        {
            std::set<std::string> seen;
            v.t = JV::OBJ; at++; ws ();
            if (at < t.size () && t[at] == '}') { at++; return true; }
            for (;;)
            {
                ws ();
                v.o.emplace_back ();
                if (!str (v.o.back ().first)) return false;
                if (!seen.insert (v.o.back ().first).second) dup = true;
                ws ();
                if (at >= t.size () || t[at++] != ':') return false;
                if (!value (v.o.back ().second)) return false;
                ws ();
                if (at >= t.size ()) return false;
                if (t[at] == '}') { at++; return true; }
                if (t[at++] != ',') return false;
            }
        }
        size_t b = at;
        if (c == '-') at++;
        if (at < t.size () && t[at] == '0') at++; else if (!digits ()) return false;
        if (at < t.size () && t[at] == '.') { at++; if (!digits ()) return false; }
        if (at < t.size () && (t[at] == 'e' || t[at] == 'E')) { at++; if (at < t.size () && (t[at] == '+' || t[at] == '-')) at++; if (!digits ()) return false; }
        v = JV::N (t.substr (b, at - b));
        return true;
    }
};
// strict document without duplicate names?
static inline bool jv_parse (const std::string& text, JV& v)
{
    JParse p (text);
    if (!p.value (v)) return false;
    p.ws ();
    return p.at == text.size () && !p.dup;
}
static inline void jv_string (std::string& o, const std::string& s, Rng *r)
{
    o += '"';
    for (unsigned char c : s)
    {
        if (r && c < 128 && c > 0 && r->chance (1, 40)) { o += strf (r->chance (1, 2) ? "\\u%04x" : "\\u%04X", c); continue; }
        switch (c)
        {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        case '/': o += r && r->chance (1, 2) ? "\\/" : "/"; break;
        default: if (c < 32) o += strf ("\\u%04x", c); else o += (char) c;
        }
    }
    o += '"';
}
static inline void jv_space (std::string& o, Rng *r)
{
    static const char *w[] = {"", "", "", " ", "\n", "\t", "\r\n", "  "};
    if (r) o += w[r->below (8)];
}
static inline void jv_text (std::string& o, const JV& v, Rng *r)
{
    jv_space (o, r);
    switch (v.t)
    {
    case JV::NUL: o += "null"; break;
    case JV::BOOL: o += v.b ? "true" : "false"; break;
    case JV::NUM: o += v.s; break;
    case JV::STR: jv_string (o, v.s, r); break;
    case JV::ARR:
        o += '[';
        for (size_t i = 0; i < v.a.size (); i++) { if (i) o += ','; jv_text (o, v.a[i], r); }
        jv_space (o, r);
        o += ']';
        break;
    case JV::OBJ:
        o += '{';
        for (size_t i = 0; i < v.o.size (); i++)
        {
            if (i) o += ',';
            jv_space (o, r);
            jv_string (o, v.o[i].first, r);
            jv_space (o, r);
            o += ':';
            jv_text (o, v.o[i].second, r);
        }
        jv_space (o, r);
        o += '}';
        break;
    }
    jv_space (o, r);
}
// every node below v, v included
static inline void jv_nodes (JV& v, std::vector<JV *>& out)
{
    out.push_back (&v);
    for (auto& x : v.a) jv_nodes (x, out);
    for (auto& x : v.o) jv_nodes (x.second, out);
}
static inline JV jv_random (Rng& r, int depth)
{
    switch (r.below (depth > 0 ? 12 : 9))
    {
    case 0: return JV ();
    case 1: return JV::B (r.chance (1, 2));
    case 2: { static const char *n[] = {"0", "-0", "1", "-1", "2147483648", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "123456789012345678901234567890"}; return JV::N (n[r.below (12)]); }
    case 3: { static const char *n[] = {"0.0", "1.0", "1.5", "-2.25", "1e3", "1E-7", "1e308", "5e-324", "1e400", "-1e400", "0.1e1", "1e-500"}; return JV::N (n[r.below (12)]); }
    case 4: { static const char *n[] = {"", "x", "1.0", "2.3", "-1", "0.0", "1", "1.", ".5", "4294967296.0", "4294967295.4294967295", "1.0.0", "true", "1.a"}; return JV::S (n[r.below (14)]); }
    case 5: { static const char *n[] = {"INTEGER", "FLOAT", "STRING", "ENUM", "BOOLEAN", "RANGE", "NUMERIC", "MINIMUM_ENTRIES", "MAXIMUM_ENTRIES", "integer", "SECTION"}; return JV::S (n[r.below (11)]); }
    case 6: return JV::A ();
    case 7: return JV::O ();
    case 8: return JV::S (std::string (r.below (3000), 'y'));
    case 9: { JV v = JV::A (); for (auto n = r.below (4); n-- > 0;) v.a.push_back (jv_random (r, depth - 1)); return v; }
    default:
    {
        static const char *k[] = {"type", "value", "introduced", "deprecated", "defaults", "elements", "restrictions", "documentation", "version", "mold", "config", "a", "b"};
        JV v = JV::O ();
        for (auto n = r.below (4); n-- > 0;) v.set (k[r.below (13)], jv_random (r, depth - 1));
        return v;
    }
    }
}
// one structural change
static inline void jv_mutate (JV& root, Rng& r)
{
    std::vector<JV *> ns;
    jv_nodes (root, ns);
    JV& v = *ns[r.below (ns.size ())];
    switch (r.below (9))
    {
    case 0: { JV n = jv_random (r, 2); v = n; break; }
    case 1: if (v.t == JV::OBJ && !v.o.empty ()) v.o.erase (v.o.begin () + r.below (v.o.size ())); else if (v.t == JV::ARR && !v.a.empty ()) v.a.erase (v.a.begin () + r.below (v.a.size ())); break;
    case 2: if (v.t == JV::OBJ) { static const char *k[] = {"extra", "type", "value", "Bad-Name", "", "introduced", "a b", "elements"}; v.set (k[r.below (8)], jv_random (r, 2)); } else if (v.t == JV::ARR) v.a.insert (v.a.begin () + r.below (v.a.size () + 1), jv_random (r, 2)); break;
    case 3: if (v.t == JV::OBJ && !v.o.empty ()) { auto& p = v.o[r.below (v.o.size ())]; std::string n = p.first + (r.chance (1, 2) ? "x" : "-"); if (!v.get (n)) p.first = n; } break;
    case 4: { JV w = JV::A ({v}); v = w; break; }
    case 5: if (v.t == JV::ARR && !v.a.empty ()) { JV w = v.a[r.below (v.a.size ())]; if (r.chance (1, 2)) v.a.push_back (w); else v = w; } break;
    case 6: { JV w = *ns[r.below (ns.size ())]; if (w.t != JV::OBJ || w.o.size () < 20) v = w; break; }       // a copy of another part
    case 7: if (v.t == JV::STR) { static const char *k[] = {"x", "", "1.0", "7.7", "0.1", "12.99999999999"}; v.s = k[r.below (6)]; } else if (v.t == JV::NUM) { JV n = jv_random (r, 0); v = n; } else if (v.t == JV::BOOL) v.b = !v.b; break;
    case 8: if (v.t == JV::OBJ && v.o.size () > 1) std::swap (v.o[r.below (v.o.size ())], v.o[r.below (v.o.size ())]); break;
    }
}
// changes of the text itself
static inline std::string text_mutate (const std::string& text, Rng& r)
{
    std::string t = text;
    static const char *tok[] = {"{", "}", "[", "]", "[[", "]]", ",", ":", "=", "\"", "\"\"\"", "'", "'''", "\\", "\\u", "\\u0000", "\\ud800", "/*", "//", "#", "null", "true", "1e999", "-", "0x1", "1979-05-27T07:32:00Z", "\n", "\r", "\t", "\xef\xbb\xbf", "\xff", "nan", "inf", "+1", "1_000", ".", "..", "a.b", "99999999999999999999", "[a", "@DISIR_CONFIG_VERSION"};
    for (auto n = 1 + r.below (4); n-- > 0;)
    {
        size_t at = t.empty () ? 0 : r.below (t.size () + 1), len = t.empty () ? 0 : std::min<size_t> (t.size () - at, r.below (12));
        switch (r.below (8))
        {
        case 0: t.erase (at, len); break;
        case 1: t.insert (at, tok[r.below (sizeof tok / sizeof *tok)]); break;
        case 2: if (at < t.size ()) t[at] = (char) r.below (256); break;
        case 3: t.resize (at); break;
        case 4: t.insert (at, t.substr (r.below (t.size () + 1), r.below (40))); break;
        case 5: if (at < t.size ()) t[at] ^= (char) (1 << r.below (8)); break;
        case 6: t.insert (at, 1, (char) r.below (256)); break;
        case 7: t.replace (at, len, tok[r.below (sizeof tok / sizeof *tok)]); break;
        }
    }
    return t;
}
