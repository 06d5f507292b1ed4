#include "dis.hh"

// ---- text ---------------------------------------------------------------------------------------
std::string MRes::str () const
{
    std::string o;
    switch (type)
    {
    case DISIR_RESTRICTION_INC_ENTRY_MIN: o = strf ("min=%g", lo); break;
    case DISIR_RESTRICTION_INC_ENTRY_MAX: o = strf ("max=%g", hi); break;
    case DISIR_RESTRICTION_EXC_VALUE_ENUM: o = "enum=" + quote (s); break;
    case DISIR_RESTRICTION_EXC_VALUE_RANGE: o = strf ("range=[%.17g,%.17g]", lo, hi); break;
    case DISIR_RESTRICTION_EXC_VALUE_NUMERIC: o = strf ("numeric=%.17g", lo); break;
    default: o = strf ("type%d", type);
    }
    o += " from " + intro.str ();
    if (!depr.zero ()) o += " until " + depr.str ();
    for (auto& d : docs) o += " doc@" + d.intro.str () + "=" + quote (d.text);
    return o;
}
static const char *tname (int t)
{
    switch (t)
    {
    case DISIR_VALUE_TYPE_STRING: return "string";
    case DISIR_VALUE_TYPE_INTEGER: return "integer";
    case DISIR_VALUE_TYPE_FLOAT: return "float";
    case DISIR_VALUE_TYPE_BOOLEAN: return "boolean";
    case DISIR_VALUE_TYPE_ENUM: return "enum";
    }
    return "untyped";
}
const MEl *MEl::find (const std::string& n) const
{
    for (auto& k : kids) if (k.name == n) return &k;
    return nullptr;
}
std::string MEl::str (int ind) const
{
    std::string p (ind, ' ');
    std::string o = p + (section ? "section " : std::string (tname (vtype)) + " ") + name;
    if (section && !(intro == Ver {1, 0})) o += " from " + intro.str ();
    if (!depr.zero ()) o += " until " + depr.str ();
    for (auto& d : defs) o += " {" + d.intro.str () + " " + d.v.str () + "}";
    for (auto& x : res) o += " <" + x.str () + ">";
    for (auto& d : docs) o += " doc@" + d.intro.str () + "=" + quote (d.text);
    o += "\n";
    for (auto& k : kids) o += k.str (ind + 2);
    return o;
}
std::string MMold::mstr () const
{
    std::string o = "mold " + ver.str () + "\n";
    for (auto& d : docs) o += "doc@" + d.intro.str () + "=" + quote (d.text) + "\n";
    for (auto& k : kids) o += k.str (1);
    return o;
}
std::string Node::str (int ind) const
{
    std::string p (ind, ' ');
    std::string o = name.empty () && ind == 0 ? "" : p + name + (section ? "/\n" : " = " + v.str () + "\n");
    for (auto& k : kids) o += k.str (ind + 2);
    return o;
}
std::string first_difference (const Node& a, const Node& b, const std::string& at)
{
    if (a.name != b.name) return at + ": name " + quote (a.name) + " vs " + quote (b.name);
    if (a.section != b.section) return at + ": kind differs";
    if (!a.section && a.v != b.v) return at + ": value " + a.v.str () + " vs " + b.v.str ();
    for (size_t i = 0; i < std::min (a.kids.size (), b.kids.size ()); i++)
    {
        auto d = first_difference (a.kids[i], b.kids[i], at + "/" + a.kids[i].name + strf ("#%zu", i));
        if (!d.empty ()) return d;
    }
    if (a.kids.size () != b.kids.size ())
    {
        auto& more = a.kids.size () > b.kids.size () ? a : b;
        return at + strf (": %zu vs %zu elements, first surplus ", a.kids.size (), b.kids.size ()) +
               more.kids[std::min (a.kids.size (), b.kids.size ())].name;
    }
    return "";
}
std::string first_difference (const MEl& a, const MEl& b, const std::string& at)
{
    auto here = at + "/" + a.name;
    if (a.name != b.name) return here + " vs " + b.name;
    if (a.section != b.section || (!a.section && a.vtype != b.vtype)) return here + ": kind or type differs";
    if (a.section && !(a.intro == b.intro)) return here + ": introduced " + a.intro.str () + " vs " + b.intro.str ();
    if (!(a.depr == b.depr)) return here + ": deprecated " + a.depr.str () + " vs " + b.depr.str ();
    auto list = [] (const MEl& e, int what) {
        std::vector<std::string> o;
        if (what == 0) for (auto& d : e.defs) o.push_back (d.intro.str () + " " + d.v.str ());
        if (what == 1) for (auto& d : e.res) o.push_back (d.str ());
        if (what == 2) for (auto& d : e.docs) o.push_back (d.intro.str () + " " + quote (d.text));
        return o;
    };
    const char *what[] = {"defaults", "restrictions", "documentation"};
    for (int w = 0; w < 3; w++)
    {
        auto x = list (a, w), y = list (b, w);
        if (x == y) continue;
        std::string s = here + ": " + what[w] + " ";
        for (auto& q : x) s += "[" + q + "]";
        s += " vs ";
        for (auto& q : y) s += "[" + q + "]";
        return s;
    }
    for (size_t i = 0; i < std::min (a.kids.size (), b.kids.size ()); i++)
    {
        auto d = first_difference (a.kids[i], b.kids[i], here);
        if (!d.empty ()) return d;
    }
    if (a.kids.size () != b.kids.size ()) return here + strf (": %zu vs %zu elements", a.kids.size (), b.kids.size ());
    return "";
}

// ---- semantics ----------------------------------------------------------------------------------
Ver el_introduced (const MEl& e)
{
    if (e.section) return e.intro;
    Ver lo = e.defs.empty () ? Ver {0, 0} : e.defs[0].intro;
    for (auto& d : e.defs) if (d.intro < lo) lo = d.intro;
    return lo;
}
bool el_active (const MEl& e, Ver v)
{
    return el_introduced (e) <= v && (e.depr.zero () || e.depr > v);
}
bool res_active (const MRes& r, Ver v) { return r.intro <= v && (r.depr.zero () || r.depr > v); }
Limits limits (const MEl& e, Ver v)
{
    if (!el_active (e, v)) return {false, 0, -1};
    const MRes *lo = nullptr, *hi = nullptr;
    for (auto& r : e.res)
    {
        if (r.value () || !res_active (r, v)) continue;
        auto& best = r.type == DISIR_RESTRICTION_INC_ENTRY_MIN ? lo : hi;
        if (!best || best->intro < r.intro) best = &r;
    }
    Limits l {true, lo ? (int) lo->lo : 1, hi ? (int) hi->hi : 1};
    if (l.hi != 0 && l.hi < l.lo) l.hi = l.lo;
    return l;
}
bool accepts (const MEl& e, Ver v, const Val& x)
{
    if (x.type != e.vtype) return false;
    if (x.type == DISIR_VALUE_TYPE_STRING || x.type == DISIR_VALUE_TYPE_BOOLEAN) return true;
    int active = 0;
    for (auto& r : e.res)
    {
        if (!r.value () || !res_active (r, v)) continue;
        active++;
        long double n = x.type == DISIR_VALUE_TYPE_INTEGER ? (long double) x.i : (long double) x.d;
        // the bounds of an integer entry are whole numbers: a fraction is dropped when they are set
        double lo = x.type == DISIR_VALUE_TYPE_INTEGER ? trunc (r.lo) : r.lo, hi = x.type == DISIR_VALUE_TYPE_INTEGER ? trunc (r.hi) : r.hi;
        switch (r.type)
        {
        case DISIR_RESTRICTION_EXC_VALUE_ENUM: if (x.s == r.s) return true; break;
        case DISIR_RESTRICTION_EXC_VALUE_RANGE: if (n >= lo && n <= hi) return true; break;
        case DISIR_RESTRICTION_EXC_VALUE_NUMERIC: if (n == lo) return true; break;
        }
    }
    return active == 0 && x.type != DISIR_VALUE_TYPE_ENUM;
}
const MDef *active_default (const MEl& e, const Ver *v)
{
    const MDef *best = nullptr, *first = nullptr;
    for (auto& d : e.defs)
    {
        if (!first || d.intro < first->intro) first = &d;
        if (v && d.intro > *v) continue;
        if (!best || best->intro < d.intro) best = &d;
    }
    return best ? best : first;
}
static void max_version (const MEl& e, Ver& m, bool root)
{
    auto up = [&] (const Ver& x) { if (x > m) m = x; };
    if (!root)
    {
        if (e.section) up (e.intro);
        if (e.depr.a != 0 || e.depr.b != 0) up (e.depr);
    }
    for (auto& d : e.docs) up (d.intro);
    for (auto& d : e.defs) up (d.intro);
    for (auto& r : e.res)
    {
        up (r.intro);
        if (!r.depr.zero ()) up (r.depr);
        for (auto& d : r.docs) up (d.intro);
    }
    for (auto& k : e.kids) max_version (k, m, false);
}
Ver mold_version (const MMold& m)
{
    Ver v {1, 0};
    max_version (m, v, true);
    return v;
}
std::vector<Node> expected_content (const MEl& e, Ver v)
{
    std::vector<Node> out;
    for (auto& k : e.kids)
    {
        auto l = limits (k, v);
        for (int i = 0; l.active && i < l.lo; i++)
        {
            Node n;
            n.name = k.name;
            n.section = k.section;
            if (k.section) n.kids = expected_content (k, v);
            else { auto *d = active_default (k, &v); if (d) n.v = d->v; }
            out.push_back (n);
        }
    }
    return out;
}
void invalid_parts (const MEl& e, Ver v, const Node& n, const std::string& path, std::set<std::string>& out, bool known)
{
    if (known)
    {
        for (auto& k : e.kids)
        {
            int cnt = 0;
            for (auto& x : n.kids) cnt += x.name == k.name;
            auto l = limits (k, v);
            if (cnt < l.lo || (!l.active && cnt > 0) || (l.active && l.hi != 0 && cnt > l.hi)) out.insert (path);
        }
    }
    std::map<std::string, int> idx;
    for (auto& x : n.kids)
    {
        auto p = (path.empty () ? "" : path + ".") + x.name + strf ("@%d", idx[x.name]++);
        const MEl *k = known ? e.find (x.name) : nullptr;
        if (!k) { out.insert (p); if (x.section) invalid_parts (e, v, x, p, out, false); continue; }
        if (k->section != x.section) { out.insert (p); if (x.section) invalid_parts (e, v, x, p, out, false); continue; }
        if (x.section) invalid_parts (*k, v, x, p, out, true);
        else if (!accepts (*k, v, x.v)) out.insert (p);
    }
}
static void collect_versions (const MEl& e, std::set<Ver>& s)
{
    auto add = [&] (Ver x) { s.insert (x); };
    if (e.section) add (e.intro);
    if (!e.depr.zero ()) add (e.depr);
    for (auto& d : e.docs) add (d.intro);
    for (auto& d : e.defs) add (d.intro);
    for (auto& r : e.res) { add (r.intro); if (!r.depr.zero ()) add (r.depr); }
    for (auto& k : e.kids) collect_versions (k, s);
}
std::vector<Ver> breakpoints (const MMold& m)
{
    std::set<Ver> s, t;
    collect_versions (m, s);
    Ver top = mold_version (m);
    s.insert (Ver {1, 0});
    s.insert (top);
    for (auto v : s)
    {
        t.insert (v);
        if (v.b > 0) t.insert (Ver {v.a, v.b - 1});
        else if (v.a > 1) t.insert (Ver {v.a - 1, 99});
        t.insert (Ver {v.a, v.b + 1 ? v.b + 1 : v.b});
    }
    std::vector<Ver> out;
    for (auto v : t) if (v <= top && !v.zero ()) out.push_back (v);
    return out;
}

// ---- generation ---------------------------------------------------------------------------------
std::string gen_name (Rng& r)
{
    static const std::vector<std::string> pool = {"a", "b", "key", "name", "server", "a1", "a_b", "x", "value", "host_name",
                                                  "port", "aa", "ab", "config", "mold", "type", "version", "elements",
                                                  "n0", "_", "list", "sync", "keyval", "the_long_name_of_an_element_in_a_mold"};
    if (r.chance (2, 3)) return r.pick (pool);
    std::string s;
    int n = (int) r.range (1, r.chance (1, 20) ? 60 : 9);
    static const char cs[] = "abcdefghijklmnopqrstuvwxyz0123456789_";
    for (int i = 0; i < n; i++) s += cs[r.below (sizeof cs - 1)];
    return s;
}
std::string gen_illegal_name (Rng& r)
{
    static const std::vector<std::string> pool = {"UPPER", "a-b", "with space", "x!", "Upper", "x{", "a.b", "a@1", "caf\xc3\xa9"};
    if (r.chance (1, 4)) return r.pick (pool);
    std::string s = r.chance (1, 8) ? "" : gen_name (r);
    int n = (int) r.range (1, 4) == 1 ? 2 : 1;
    for (int i = 0; i < n; i++)
    {
        int ch;
        static const char near_[] = "-`{/:@[^. ";   // next to the admitted ranges
        do ch = r.chance (1, 2) ? near_[r.below (sizeof near_ - 1)] : (int) r.range (1, 255); while (ch == '_' || (ch >= 'a' && ch <= 'z') || (ch >= '0' && ch <= '9'));
        s.insert (s.begin () + r.below (s.size () + 1), (char) ch);
    }
    return s;
}
static void utf8 (std::string& s, uint32_t cp)
{
    if (cp < 0x80) s += (char) cp;
    else if (cp < 0x800) { s += (char) (0xC0 | cp >> 6); s += (char) (0x80 | (cp & 63)); }
    else if (cp < 0x10000) { s += (char) (0xE0 | cp >> 12); s += (char) (0x80 | (cp >> 6 & 63)); s += (char) (0x80 | (cp & 63)); }
    else
    {
        s += (char) (0xF0 | cp >> 18); s += (char) (0x80 | (cp >> 12 & 63));
        s += (char) (0x80 | (cp >> 6 & 63)); s += (char) (0x80 | (cp & 63));
    }
}
std::string gen_string (Rng& r, const GenOpt& o)
{
    int n = (int) (r.chance (1, 30) ? r.range (90, 700) : r.range (o.empty_strings ? 0 : 1, 14));
    std::string s;
    if (o.strings == 0 || r.chance (1, 4))
    {
        for (int i = 0; i < n; i++) s += (char) ('a' + r.below (26));
        return s;
    }
    static const std::vector<std::string> special = {"\"", "'", "\\", "/", "%s", "%n", "%d%%", "\\n", "\\u0041", "true", "1.0", "{",
        "[]", "#", "=", "&", "<", " ", "@", ".", "\"\"\"", "'''", "\\\"", "0x1F", "1e5", "-", "null", "$", "`"};
    for (int i = 0; i < n; i++)
    {
        int k = (int) r.below (10);
        if (k < 4) s += (char) r.range (32, 126);
        else if (k < 6) s += r.pick (special);
        else if (o.strings >= 2 && k == 6 && o.control_chars) s += r.pick ({'\n', '\t', '\r', '\b', '\f', '\x01', '\x1f', '\x7f', '\v', '\x1b'});
        else if (o.strings >= 2 && k < 9)
        {
            uint32_t cp;
            switch (r.below (4))
            {
            case 0: cp = (uint32_t) r.range (0xA0, 0x7FF); break;
            case 1: cp = (uint32_t) r.range (0x800, 0xD7FF); break;
            case 2: cp = (uint32_t) r.range (0xE000, 0xFFFD); break;
            default: cp = (uint32_t) r.range (0x10000, 0x10FFFF);
            }
            utf8 (s, cp);
        }
        else if (o.strings >= 3) s += (char) r.range (o.nul_free ? 1 : 0, 255);
        else s += (char) ('a' + r.below (26));
    }
    return s;
}
int64_t gen_int (Rng& r, const GenOpt& o)
{
    if (o.extreme_values && r.chance (1, 3))
    {
        static const std::vector<int64_t> e = {INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, (int64_t) 1 << 53, ((int64_t) 1 << 53) + 1,
            -((int64_t) 1 << 53) - 1, INT32_MAX, INT32_MIN, (int64_t) INT32_MAX + 1, (int64_t) INT32_MIN - 1, (int64_t) 1 << 32, UINT32_MAX,
            ((int64_t) 1 << 32) + 7, 0, -1, 1, 1000000000000000003ll};
        return r.chance (1, 3) ? (int64_t) r.next () : r.pick (e);
    }
    return r.range (-50, 50);
}
double gen_double (Rng& r, const GenOpt& o)
{
    if (o.extreme_values && r.chance (1, 3))
    {
        static const std::vector<double> e = {0.1, -0.1, 1e300, -1e300, 1e-300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
            0.30000000000000004, 1.0 / 3, 123456789.123456789, 1e15, 1e16, 1e17, 1e22, 1e23, 9007199254740993.0, -0.5, 3.0, 100.0, 0.000001234567, -0.0};
        if (r.chance (1, 3))
        {
            double d;
            do { uint64_t u = r.next (); memcpy (&d, &u, 8); } while (!std::isfinite (d));
            return d;
        }
        return r.pick (e);
    }
    if (r.chance (1, 3)) return (double) r.range (-20, 20);
    return (double) r.range (-2000, 2000) / 64.0;
}
Val gen_value (Rng& r, int type, const GenOpt& o)
{
    switch (type)
    {
    case DISIR_VALUE_TYPE_STRING: return Val::S (gen_string (r, o));
    case DISIR_VALUE_TYPE_INTEGER: return Val::I (gen_int (r, o));
    case DISIR_VALUE_TYPE_FLOAT: return Val::F (gen_double (r, o));
    case DISIR_VALUE_TYPE_BOOLEAN: return Val::B (r.chance (1, 2));
    case DISIR_VALUE_TYPE_ENUM: return Val::E (r.chance (1, 2) ? gen_name (r) : gen_string (r, o));
    }
    return Val ();
}
Ver gen_ver (Rng& r)
{
    Ver v;
    switch (r.below (8))
    {
    case 0: v.a = 1; v.b = 0; break;
    case 1: v.a = 1; v.b = (uint32_t) r.range (1, 12); break;
    case 2: v.a = (uint32_t) r.range (10, 120); v.b = (uint32_t) r.below (3); break;
    case 3: v.a = 2; v.b = (uint32_t) r.range (0, 101); break;
    default: v.a = (uint32_t) r.range (1, 4); v.b = (uint32_t) r.below (6);
    }
    return v;
}
static void gen_docs (Rng& r, const GenOpt& o, const std::vector<Ver>& ladder, std::vector<MDoc>& docs, bool many)
{
    if (!o.docs || r.chance (1, 3)) return;
    GenOpt p = o;
    p.empty_strings = false;
    docs.push_back ({o.multi_docs && !many && r.chance (1, 3) ? r.pick (ladder) : Ver {0, 0}, gen_string (r, p)});
    if (many && o.multi_docs && r.chance (1, 2))
    {
        docs.clear ();
        std::set<Ver> vs;
        int n = (int) r.range (1, 4);
        for (int i = 0; i < n; i++) vs.insert (r.pick (ladder));
        for (auto v : vs) docs.push_back ({v, gen_string (r, p)});
    }
}
static Ver after (Rng& r, const std::vector<Ver>& ladder, Ver v)
{
    std::vector<Ver> c;
    for (auto x : ladder) if (x > v) c.push_back (x);
    return c.empty () ? Ver {0, 0} : r.pick (c);
}
static void gen_inclusive (Rng& r, const GenOpt& o, const std::vector<Ver>& ladder, MEl& e)
{
    if (!o.restrictions) return;
    for (int t : {DISIR_RESTRICTION_INC_ENTRY_MIN, DISIR_RESTRICTION_INC_ENTRY_MAX})
    {
        std::set<Ver> used;
        int n = r.chance (1, 2) ? 0 : (int) r.range (1, o.versions ? 3 : 1);
        for (int i = 0; i < n; i++)
        {
            MRes x;
            x.type = t;
            x.intro = r.pick (ladder);
            if (!used.insert (x.intro).second) continue;
            if (t == DISIR_RESTRICTION_INC_ENTRY_MIN) x.lo = (double) r.range (0, o.max_min);
            else x.hi = (double) r.range (0, 4);
            if (o.incl_depr && o.deprecations && r.chance (1, 4)) x.depr = after (r, ladder, x.intro);
            e.res.push_back (x);
        }
    }
}
static void gen_element (Rng& r, const GenOpt& o, const std::vector<Ver>& ladder, MEl& e, int depth);
static void gen_kids (Rng& r, const GenOpt& o, const std::vector<Ver>& ladder, MEl& e, int depth)
{
    int n = (int) r.range (depth == o.depth || (o.depth >= 4 && o.width == 1) ? 1 : 0, o.width);
    std::set<std::string> used;
    for (int i = 0; i < n; i++)
    {
        MEl k;
        k.name = gen_name (r);
        if (!used.insert (k.name).second) continue;
        gen_element (r, o, ladder, k, depth);
        e.kids.push_back (k);
    }
}
static void gen_element (Rng& r, const GenOpt& o, const std::vector<Ver>& ladder, MEl& e, int depth)
{
    e.section = depth > 1 && (o.depth >= 4 && o.width == 1 ? r.chance (7, 8) : r.chance (1, 3));
    gen_docs (r, o, ladder, e.docs, true);
    if (e.section)
    {
        if (o.versions && r.chance (1, 3)) e.intro = r.pick (ladder);
        if (o.deprecations && r.chance (1, 5)) e.depr = after (r, ladder, e.intro);
        gen_inclusive (r, o, ladder, e);
        gen_kids (r, o, ladder, e, depth - 1);
        return;
    }
    do e.vtype = (int) r.range (1, 5); while (!o.types[e.vtype]);
    std::set<Ver> vs;
    vs.insert (o.versions && r.chance (1, 3) ? r.pick (ladder) : Ver {1, 0});
    if (o.versions) for (int n = (int) r.below (4); n > 0; n--) vs.insert (r.pick (ladder));
    for (auto v : vs) e.defs.push_back ({v, gen_value (r, e.vtype, o)});
    if (o.deprecations && r.chance (1, 6)) e.depr = after (r, ladder, el_introduced (e));
    gen_inclusive (r, o, ladder, e);
    if (o.restrictions && (e.vtype == DISIR_VALUE_TYPE_INTEGER || e.vtype == DISIR_VALUE_TYPE_FLOAT) && r.chance (1, 2))
    {
        for (int n = (int) r.range (1, 3); n > 0; n--)
        {
            MRes x;
            bool in = e.vtype == DISIR_VALUE_TYPE_INTEGER;
            auto num = [&] {
                if (!in) return gen_double (r, o);
                int64_t v = gen_int (r, o);
                if (v > ((int64_t) 1 << 53) || v < -((int64_t) 1 << 53)) v >>= 12;
                return (double) v;
            };
            x.type = r.chance (2, 3) ? DISIR_RESTRICTION_EXC_VALUE_RANGE : DISIR_RESTRICTION_EXC_VALUE_NUMERIC;
            x.lo = num ();
            if (x.type == DISIR_RESTRICTION_EXC_VALUE_RANGE)
            {
                x.hi = num ();
                if (x.hi < x.lo) std::swap (x.hi, x.lo);
            }
            x.intro = r.pick (ladder);
            if (o.deprecations && r.chance (1, 3)) x.depr = after (r, ladder, x.intro);
            gen_docs (r, o, ladder, x.docs, true);
            e.res.push_back (x);
        }
    }
    if (e.vtype == DISIR_VALUE_TYPE_ENUM && o.restrictions)
    {
        for (int n = (int) r.below (4); n > 0; n--)
        {
            MRes x;
            x.type = DISIR_RESTRICTION_EXC_VALUE_ENUM;
            x.s = gen_value (r, e.vtype, o).s;
            x.intro = r.pick (ladder);
            if (o.deprecations && r.chance (1, 3)) x.depr = after (r, ladder, x.intro);
            gen_docs (r, o, ladder, x.docs, true);
            e.res.push_back (x);
        }
    }
    // make every default acceptable at every version at which it is the active one
    for (auto v : ladder)
    {
        if (!el_active (e, v)) continue;
        auto *d = active_default (e, &v);
        if (accepts (e, v, d->v)) continue;
        MRes x;
        x.intro = d->intro;
        if (e.vtype == DISIR_VALUE_TYPE_ENUM) { x.type = DISIR_RESTRICTION_EXC_VALUE_ENUM; x.s = d->v.s; }
        else if (e.vtype == DISIR_VALUE_TYPE_INTEGER && (int64_t) (double) (d->v.i / 2) != d->v.i / 2)
        {
            // not representable as a restriction's double: admit a range around it
            x.type = DISIR_RESTRICTION_EXC_VALUE_RANGE;
            x.lo = -9.2e18; x.hi = 9.2e18;
            if (d->v.i > 9000000000000000000ll) d = nullptr;
            else if (d->v.i < -9000000000000000000ll) d = nullptr;
            if (!d) { e.res.erase (std::remove_if (e.res.begin (), e.res.end (), [] (const MRes& q) { return q.value (); }), e.res.end ()); break; }
        }
        else if (e.vtype == DISIR_VALUE_TYPE_INTEGER && (long double) (double) d->v.i != (long double) d->v.i)
        {
            e.res.erase (std::remove_if (e.res.begin (), e.res.end (), [] (const MRes& q) { return q.value (); }), e.res.end ());
            break;
        }
        else
        {
            x.type = DISIR_RESTRICTION_EXC_VALUE_NUMERIC;
            x.lo = e.vtype == DISIR_VALUE_TYPE_INTEGER ? (double) d->v.i : d->v.d;
            if (e.vtype == DISIR_VALUE_TYPE_INTEGER && (x.lo >= 9.2e18 || x.lo <= -9.2e18))
            {
                e.res.erase (std::remove_if (e.res.begin (), e.res.end (), [] (const MRes& q) { return q.value (); }), e.res.end ());
                break;
            }
        }
        e.res.push_back (x);
    }
}
MMold gen_mold (Rng& r, const GenOpt& o)
{
    MMold m;
    std::vector<Ver> ladder;
    std::set<Ver> vs;
    vs.insert (Ver {1, 0});
    if (o.versions) for (int n = (int) r.below (5); n > 0; n--) vs.insert (gen_ver (r));
    // versions before the first
    if (o.versions && r.chance (1, 4)) for (int n = (int) r.range (1, 2); n > 0; n--) vs.insert (Ver {0, (uint32_t) r.range (1, 12)});
    for (auto v : vs) ladder.push_back (v);
    gen_docs (r, o, ladder, m.docs, true);
    gen_kids (r, o, ladder, m, o.depth);
    m.ver = mold_version (m);
    return m;
}
Val gen_accepted (Rng& r, const MEl& e, Ver v, const GenOpt& o)
{
    for (int i = 0; i < 6; i++)
    {
        Val x = gen_value (r, e.vtype, o);
        if (accepts (e, v, x)) return x;
    }
    std::vector<Val> c;
    for (auto& q : e.res)
    {
        if (!q.value () || !res_active (q, v)) continue;
        auto num = [&] (double d) {
            if (e.vtype == DISIR_VALUE_TYPE_FLOAT) c.push_back (Val::F (d));
            else if (d > -9.2e18 && d < 9.2e18) c.push_back (Val::I ((int64_t) d));
        };
        if (q.type == DISIR_RESTRICTION_EXC_VALUE_ENUM) c.push_back (Val::E (q.s));
        else { num (q.lo); if (q.type == DISIR_RESTRICTION_EXC_VALUE_RANGE) { num (q.hi); num (q.lo / 2 + q.hi / 2); } }
    }
    std::vector<Val> ok;
    for (auto& x : c) if (accepts (e, v, x)) ok.push_back (x);
    if (!ok.empty ()) return r.pick (ok);
    auto *d = active_default (e, &v);
    return d ? d->v : gen_value (r, e.vtype, o);
}
bool gen_rejected (Rng& r, const MEl& e, Ver v, const GenOpt& o, Val& out)
{
    std::vector<Val> c;
    for (int i = 0; i < 8; i++) c.push_back (gen_value (r, e.vtype, o));
    for (auto& q : e.res)
    {
        if (!q.value ()) continue;
        auto num = [&] (double d) {
            if (e.vtype == DISIR_VALUE_TYPE_FLOAT)
            {
                c.push_back (Val::F (d)); c.push_back (Val::F (nextafter (d, -INFINITY))); c.push_back (Val::F (nextafter (d, INFINITY)));
            }
            else if (d > -9.2e18 && d < 9.2e18) { c.push_back (Val::I ((int64_t) d)); c.push_back (Val::I ((int64_t) d - 1)); c.push_back (Val::I ((int64_t) d + 1)); }
        };
        if (q.type == DISIR_RESTRICTION_EXC_VALUE_ENUM)
        {
            c.push_back (Val::E (q.s)); c.push_back (Val::E (q.s + "x"));
            if (!q.s.empty ()) c.push_back (Val::E (q.s.substr (0, q.s.size () - 1)));
        }
        else { num (q.lo); if (q.type == DISIR_RESTRICTION_EXC_VALUE_RANGE) num (q.hi); }
    }
    std::vector<Val> bad;
    for (auto& x : c) if (!accepts (e, v, x) && std::isfinite (x.d)) bad.push_back (x);
    if (bad.empty ()) return false;
    out = r.pick (bad);
    return true;
}
Node gen_config (Rng& r, const MEl& e, Ver v, const GenOpt& o)
{
    Node n;
    n.name = e.name;
    n.section = true;
    for (auto& k : e.kids)
    {
        auto l = limits (k, v);
        if (!l.active) continue;
        int hi = l.hi == 0 ? l.lo + 3 : l.hi;
        int cnt = (int) r.range (l.lo, std::max (l.lo, std::min (hi, l.lo + 4)));
        // now and then a crowd, not within another
        static thread_local int crowds = 0;
        bool crowd = (l.hi == 0 || l.hi > 10) && !crowds && r.chance (1, 12);
        if (crowd) { int most = l.hi ? std::min (l.hi, 45) : 45; cnt = (int) r.range (std::max (l.lo, std::min (9, most)), std::max (l.lo, most)); }
        struct Within { int& n; int d; Within (int& x, int y) : n (x), d (y) { n += d; } ~Within () { n -= d; } } within (crowds, crowd);
        for (int i = 0; i < cnt; i++)
        {
            if (k.section) n.kids.push_back (gen_config (r, k, v, o));
            else
            {
                Node x;
                x.name = k.name;
                x.v = gen_accepted (r, k, v, o);
                n.kids.push_back (x);
            }
        }
    }
    if (r.chance (1, 3)) for (size_t i = 1; i < n.kids.size (); i++) std::swap (n.kids[i], n.kids[r.below (i + 1)]);
    return n;
}

// ---- through the API ----------------------------------------------------------------------------
const char *sname (enum disir_status s) { return disir_status_string (s); }
void put (struct disir_context *&c) { if (c) dc_putcontext (&c); c = nullptr; }
enum disir_status set_value (struct disir_context *ctx, const Val& v)
{
    switch (v.type)
    {
    case DISIR_VALUE_TYPE_STRING: return dc_set_value_string (ctx, v.s.c_str (), (int32_t) v.s.size ());
    case DISIR_VALUE_TYPE_ENUM: return dc_set_value_enum (ctx, v.s.c_str (), (int32_t) v.s.size ());
    case DISIR_VALUE_TYPE_INTEGER: return dc_set_value_integer (ctx, v.i);
    case DISIR_VALUE_TYPE_FLOAT: return dc_set_value_float (ctx, v.d);
    case DISIR_VALUE_TYPE_BOOLEAN: return dc_set_value_boolean (ctx, v.b);
    }
    return DISIR_STATUS_INVALID_ARGUMENT;
}
enum disir_status get_value (struct disir_context *ctx, int type, Val& v)
{
    enum disir_status s;
    v = Val ();
    v.type = type;
    switch (type)
    {
    case DISIR_VALUE_TYPE_STRING: case DISIR_VALUE_TYPE_ENUM:
    {
        const char *p = nullptr; int32_t n = 0;
        s = type == DISIR_VALUE_TYPE_STRING ? dc_get_value_string (ctx, &p, &n) : dc_get_value_enum (ctx, &p, &n);
        if (s == DISIR_STATUS_OK) v.s = p ? std::string (p, n) : std::string ();
        return s;
    }
    case DISIR_VALUE_TYPE_INTEGER: return dc_get_value_integer (ctx, &v.i);
    case DISIR_VALUE_TYPE_FLOAT: return dc_get_value_float (ctx, &v.d);
    case DISIR_VALUE_TYPE_BOOLEAN: { uint8_t b = 0; s = dc_get_value_boolean (ctx, &b); v.b = b; return s; }
    }
    return DISIR_STATUS_INVALID_ARGUMENT;
}
enum disir_status add_default (struct disir_context *kv, const Val& v, const Ver& intro)
{
    auto raw = intro.raw ();
    switch (v.type)
    {
    case DISIR_VALUE_TYPE_STRING: return dc_add_default_string (kv, v.s.c_str (), (int32_t) v.s.size (), &raw);
    case DISIR_VALUE_TYPE_INTEGER: return dc_add_default_integer (kv, v.i, &raw);
    case DISIR_VALUE_TYPE_FLOAT: return dc_add_default_float (kv, v.d, &raw);
    case DISIR_VALUE_TYPE_BOOLEAN: return dc_add_default_boolean (kv, v.b, &raw);
    case DISIR_VALUE_TYPE_ENUM: return dc_add_default_string (kv, v.s.c_str (), (int32_t) v.s.size (), &raw);
    }
    return DISIR_STATUS_INVALID_ARGUMENT;
}
bool build_docs (Case& c, struct disir_context *ctx, const std::vector<MDoc>& docs)
{
    if (docs.empty ()) return true;
    if (docs.size () == 1 && docs[0].intro.zero ())
        return EXPECT_OK (c, dc_add_documentation (ctx, docs[0].text.c_str (), (int32_t) docs[0].text.size ()));
    std::vector<struct disir_context *> hs;
    bool ok = true;
    for (auto& d : docs)
    {
        struct disir_context *h = nullptr;
        if (!EXPECT_OK (c, dc_begin (ctx, DISIR_CONTEXT_DOCUMENTATION, &h))) { ok = false; break; }
        hs.push_back (h);
        auto raw = d.intro.raw ();
        ok = EXPECT_OK (c, dc_set_value_string (h, d.text.c_str (), (int32_t) d.text.size ()))
             && EXPECT_OK (c, dc_add_introduced (h, &raw));
        if (!ok) break;
    }
    for (size_t i = hs.size (); i-- > 0;)
    {
        if (ok) ok = EXPECT_OK (c, dc_finalize (&hs[i]));
        if (hs[i]) dc_destroy (&hs[i]);
    }
    return ok;
}
bool build_restriction (Case& c, struct disir_context *parent, const MRes& r, int vtype)
{
    struct disir_context *h = nullptr;
    auto intro = r.intro.raw (), depr = r.depr.raw ();
    if (r.depr.zero () && r.docs.empty () && c.r.chance (1, 2))
    {
        switch (r.type)
        {
        case DISIR_RESTRICTION_INC_ENTRY_MIN: return EXPECT_OK (c, dc_add_restriction_entries_min (parent, (int64_t) r.lo, &intro));
        case DISIR_RESTRICTION_INC_ENTRY_MAX: return EXPECT_OK (c, dc_add_restriction_entries_max (parent, (int64_t) r.hi, &intro));
        case DISIR_RESTRICTION_EXC_VALUE_ENUM: return EXPECT_OK (c, dc_add_restriction_value_enum (parent, r.s.c_str (), nullptr, &intro, nullptr));
        case DISIR_RESTRICTION_EXC_VALUE_RANGE: return EXPECT_OK (c, dc_add_restriction_value_range (parent, r.lo, r.hi, nullptr, &intro, nullptr));
        case DISIR_RESTRICTION_EXC_VALUE_NUMERIC: return EXPECT_OK (c, dc_add_restriction_value_numeric (parent, r.lo, nullptr, &intro, nullptr));
        }
    }
    if (!EXPECT_OK (c, dc_begin (parent, DISIR_CONTEXT_RESTRICTION, &h))) return false;
    bool ok = EXPECT_OK (c, dc_set_restriction_type (h, (enum disir_restriction_type) r.type));
    if (ok) switch (r.type)
    {
    case DISIR_RESTRICTION_INC_ENTRY_MIN: ok = EXPECT_OK (c, dc_restriction_set_numeric (h, r.lo)); break;
    case DISIR_RESTRICTION_INC_ENTRY_MAX: ok = EXPECT_OK (c, dc_restriction_set_numeric (h, r.hi)); break;
    case DISIR_RESTRICTION_EXC_VALUE_ENUM: ok = EXPECT_OK (c, dc_restriction_set_string (h, r.s.c_str ())); break;
    case DISIR_RESTRICTION_EXC_VALUE_RANGE: ok = EXPECT_OK (c, dc_restriction_set_range (h, r.lo, r.hi)); break;
    case DISIR_RESTRICTION_EXC_VALUE_NUMERIC: ok = EXPECT_OK (c, dc_restriction_set_numeric (h, r.lo)); break;
    }
    ok = ok && EXPECT_OK (c, dc_add_introduced (h, &intro));
    if (ok && !r.depr.zero ()) ok = EXPECT_OK (c, dc_add_deprecated (h, &depr));
    ok = ok && build_docs (c, h, r.docs);
    ok = ok && EXPECT_OK (c, dc_finalize (&h));
    if (h) dc_destroy (&h);
    return ok;
}
static bool build_element_into (Case& c, struct disir_context *h, const MEl& e)
{
    bool ok = EXPECT_OK (c, dc_set_name (h, e.name.c_str (), (int32_t) e.name.size ()));
    if (e.section)
    {
        auto raw = e.intro.raw ();
        if (ok && !(e.intro == Ver {1, 0})) ok = EXPECT_OK (c, dc_add_introduced (h, &raw));
    }
    else
    {
        ok = ok && EXPECT_OK (c, dc_set_value_type (h, (enum disir_value_type) e.vtype));
        std::vector<MDef> ds = e.defs;
        for (size_t i = 1; i < ds.size (); i++) std::swap (ds[i], ds[c.r.below (i + 1)]);
        for (auto& d : ds) ok = ok && EXPECT_OK (c, add_default (h, d.v, d.intro));
    }
    if (ok && !e.depr.zero ()) { auto raw = e.depr.raw (); ok = EXPECT_OK (c, dc_add_deprecated (h, &raw)); }
    for (auto& x : e.res) ok = ok && build_restriction (c, h, x, e.vtype);
    ok = ok && build_docs (c, h, e.docs);
    for (auto& k : e.kids)
    {
        if (!ok) break;
        auto *kh = build_element (c, h, k);
        if (!kh) ok = false;
        else dc_putcontext (&kh);
    }
    return ok;
}
struct disir_context *build_element (Case& c, struct disir_context *parent, const MEl& e)
{
    struct disir_context *h = nullptr;
    if (!EXPECT_OK (c, dc_begin (parent, e.section ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &h))) return nullptr;
    if (!build_element_into (c, h, e)) { dc_destroy (&h); return nullptr; }
    if (!EXPECT_OK (c, dc_finalize_keep_reference (h))) { dc_destroy (&h); return nullptr; }
    return h;
}
struct disir_mold *build_mold (Case& c, const MMold& m)
{
    struct disir_context *h = nullptr;
    struct disir_mold *out = nullptr;
    if (!EXPECT_OK (c, dc_mold_begin (&h))) return nullptr;
    bool ok = build_docs (c, h, m.docs);
    for (auto& k : m.kids)
    {
        if (!ok) break;
        auto *kh = build_element (c, h, k);
        if (!kh) ok = false;
        else dc_putcontext (&kh);
    }
    if (ok) ok = EXPECT_OK (c, dc_mold_finalize (&h, &out));
    if (!ok && h) { dc_destroy (&h); }
    if (!ok && out) { disir_mold_finished (&out); }
    return ok ? out : nullptr;
}
bool build_node (Case& c, struct disir_context *parent, const Node& n)
{
    struct disir_context *h = nullptr;
    if (!EXPECT_OK (c, dc_begin (parent, n.section ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &h))) return false;
    bool ok = EXPECT_OK (c, dc_set_name (h, n.name.c_str (), (int32_t) n.name.size ()));
    if (ok && !n.section) ok = EXPECT_OK (c, set_value (h, n.v));
    for (auto& k : n.kids) ok = ok && build_node (c, h, k);
    if (ok) ok = EXPECT_OK (c, dc_finalize (&h));
    if (!ok && h) dc_destroy (&h);
    return ok;
}
struct disir_config *build_config (Case& c, struct disir_mold *mold, const MConfig& m)
{
    struct disir_context *h = nullptr;
    struct disir_config *out = nullptr;
    if (!EXPECT_OK (c, dc_config_begin (mold, &h))) return nullptr;
    auto raw = m.ver.raw ();
    bool ok = EXPECT_OK (c, dc_set_version (h, &raw));
    for (auto& k : m.root.kids) ok = ok && build_node (c, h, k);
    if (ok) ok = EXPECT_OK (c, dc_config_finalize (&h, &out));
    if (!ok && h) dc_destroy (&h);
    if (!ok && out) disir_config_finished (&out);
    return ok ? out : nullptr;
}
std::vector<struct disir_context *> collect (struct disir_collection *col)
{
    std::vector<struct disir_context *> v;
    struct disir_context *x = nullptr;
    while (col && dc_collection_next (col, &x) == DISIR_STATUS_OK) v.push_back (x);
    return v;
}
std::string own_name (struct disir_context *ctx)
{
    const char *p = nullptr; int32_t n = 0;
    if (dc_get_name (ctx, &p, &n) != DISIR_STATUS_OK || !p) return "";
    return std::string (p, n);
}
bool dump_node (Case& c, struct disir_context *ctx, Node& out)
{
    out.section = dc_context_type (ctx) != DISIR_CONTEXT_KEYVAL;
    if (dc_context_type (ctx) != DISIR_CONTEXT_CONFIG) out.name = own_name (ctx);
    if (!out.section)
    {
        enum disir_value_type t;
        if (!EXPECT_OK (c, dc_get_value_type (ctx, &t))) return false;
        return EXPECT_OK (c, get_value (ctx, t, out.v));
    }
    struct disir_collection *col = nullptr;
    if (!EXPECT_OK (c, dc_get_elements (ctx, &col))) return false;
    auto els = collect (col);
    dc_collection_finished (&col);
    bool ok = true;
    for (auto *e : els)
    {
        out.kids.emplace_back ();
        ok = ok && dump_node (c, e, out.kids.back ());
        dc_putcontext (&e);
    }
    return ok;
}
bool dump_config (Case& c, struct disir_config *cfg, MConfig& out)
{
    disir_version v;
    out = MConfig ();
    auto *ctx = dc_config_getcontext (cfg);
    if (!ctx) { c.violation ("getcontext", "dc_config_getcontext returned NULL"); return false; }
    bool ok = EXPECT_OK (c, dc_config_get_version (cfg, &v)) && dump_node (c, ctx, out.root);
    out.ver = ver_of (v);
    dc_putcontext (&ctx);
    return ok;
}
static void dump_docs (struct disir_context *ctx, std::vector<MDoc>& out, const std::vector<Ver>& probe)
{
    std::string last;
    bool any = false;
    for (auto v : probe)
    {
        const char *p = nullptr; int32_t n = 0;
        auto raw = v.raw ();
        if (dc_get_documentation (ctx, &raw, &p, &n) != DISIR_STATUS_OK || !p) continue;
        std::string s (p, n);
        if (any && s == last) continue;
        any = true;
        last = s;
        out.push_back ({v, s});
    }
}
bool dump_element (Case& c, struct disir_context *ctx, MEl& out, const std::vector<Ver>& docprobe)
{
    auto type = dc_context_type (ctx);
    out.section = type != DISIR_CONTEXT_KEYVAL;
    bool ok = true;
    disir_version v {0, 0};
    dump_docs (ctx, out.docs, docprobe);
    if (type != DISIR_CONTEXT_MOLD)
    {
        out.name = own_name (ctx);
        if (out.section) { ok = EXPECT_OK (c, dc_get_introduced (ctx, &v)); out.intro = ver_of (v); }
        ok = ok && EXPECT_OK (c, dc_get_deprecated (ctx, &v));
        out.depr = ver_of (v);
        struct disir_collection *col = nullptr;
        auto s = dc_restriction_collection (ctx, &col);
        if (s != DISIR_STATUS_OK && s != DISIR_STATUS_NOT_EXIST) { c.violation ("status:dc_restriction_collection", "%s", sname (s)); ok = false; }
        if (s == DISIR_STATUS_OK)
        {
            auto rs = collect (col);
            dc_collection_finished (&col);
            for (auto *x : rs)
            {
                MRes q;
                enum disir_restriction_type t = DISIR_RESTRICTION_UNKNOWN;
                ok = ok && EXPECT_OK (c, dc_get_restriction_type (x, &t));
                q.type = t;
                ok = ok && EXPECT_OK (c, dc_get_introduced (x, &v)); q.intro = ver_of (v);
                ok = ok && EXPECT_OK (c, dc_get_deprecated (x, &v)); q.depr = ver_of (v);
                const char *p = nullptr;
                switch (t)
                {
                case DISIR_RESTRICTION_INC_ENTRY_MIN: case DISIR_RESTRICTION_EXC_VALUE_NUMERIC: ok = ok && EXPECT_OK (c, dc_restriction_get_numeric (x, &q.lo)); break;
                case DISIR_RESTRICTION_INC_ENTRY_MAX: ok = ok && EXPECT_OK (c, dc_restriction_get_numeric (x, &q.hi)); break;
                case DISIR_RESTRICTION_EXC_VALUE_RANGE: ok = ok && EXPECT_OK (c, dc_restriction_get_range (x, &q.lo, &q.hi)); break;
                case DISIR_RESTRICTION_EXC_VALUE_ENUM: ok = ok && EXPECT_OK (c, dc_restriction_get_string (x, &p)); q.s = p ? p : ""; break;
                default: break;
                }
                dump_docs (x, q.docs, docprobe);
                out.res.push_back (q);
                dc_putcontext (&x);
            }
        }
    }
    if (!out.section)
    {
        enum disir_value_type t = DISIR_VALUE_TYPE_UNKNOWN;
        ok = ok && EXPECT_OK (c, dc_get_value_type (ctx, &t));
        out.vtype = t;
        struct disir_collection *col = nullptr;
        ok = ok && EXPECT_OK (c, dc_get_default_contexts (ctx, &col));
        if (!ok) return false;
        auto ds = collect (col);
        dc_collection_finished (&col);
        for (auto *x : ds)
        {
            MDef d;
            ok = ok && EXPECT_OK (c, dc_get_introduced (x, &v));
            d.intro = ver_of (v);
            ok = ok && EXPECT_OK (c, get_value (x, t, d.v));
            out.defs.push_back (d);
            dc_putcontext (&x);
        }
        return ok;
    }
    struct disir_collection *col = nullptr;
    if (!EXPECT_OK (c, dc_get_elements (ctx, &col))) return false;
    auto els = collect (col);
    dc_collection_finished (&col);
    for (auto *e : els)
    {
        out.kids.emplace_back ();
        ok = ok && dump_element (c, e, out.kids.back (), docprobe);
        dc_putcontext (&e);
    }
    return ok;
}
bool dump_mold (Case& c, struct disir_mold *mold, MMold& out, const std::vector<Ver>& docprobe)
{
    disir_version v;
    auto *ctx = dc_mold_getcontext (mold);
    if (!ctx) { c.violation ("getcontext", "dc_mold_getcontext returned NULL"); return false; }
    bool ok = EXPECT_OK (c, dc_mold_get_version (mold, &v)) && dump_element (c, ctx, out, docprobe);
    out.ver = ver_of (v);
    dc_putcontext (&ctx);
    return ok;
}
