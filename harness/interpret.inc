// What a JSON document says, read by the harness itself.
#pragma once
#include "jv.inc"
#include <disir/version.h>
struct Reading { bool fault = false, odd = false; std::string why; void bad (const std::string& w) { if (!fault) why = w; fault = true; } void strange (const std::string& w) { if (!odd && !fault) why = w; odd = true; } };
// a number that no double holds, anywhere: a reader may refuse the document
static inline bool number_beyond (const JV& v)
{
    if (v.t == JV::NUM && (!std::isfinite (v.num ()) || (v.num () == 0 && v.s.substr (0, v.s.find_first_of ("eE")).find_first_of ("123456789") != std::string::npos))) return true;
    for (auto& x : v.a) if (number_beyond (x)) return true;
    for (auto& p : v.o) if (number_beyond (p.second)) return true;
    return false;
}
static inline bool text_version (const JV& v, Ver& out)
{
    if (v.t != JV::STR) return false;
    disir_version raw;
    if (dc_version_convert (v.s.c_str (), &raw) != DISIR_STATUS_OK) return false;
    out = ver_of (raw);
    return true;
}
static inline bool typed (const JV& x, int type, Val& v, Reading& rd)
{
    int64_t i;
    switch (type)
    {
    case DISIR_VALUE_TYPE_INTEGER: if (!x.int64 (i)) return false; v = Val::I (i); return true;
    case DISIR_VALUE_TYPE_FLOAT: if (x.t != JV::NUM) return false; v = Val::F (x.integral () && x.int64 (i) ? (double) i : x.num ()); if (!std::isfinite (v.d)) rd.strange ("number beyond a double"); if (x.integral () && !x.int64 (i)) rd.strange ("wide integer for a double"); return true;
    case DISIR_VALUE_TYPE_BOOLEAN: if (x.t != JV::BOOL) return false; v = Val::B (x.b); return true;
    case DISIR_VALUE_TYPE_STRING: if (x.t != JV::STR) return false; v = Val::S (x.s); if (x.s.find ('\0') != std::string::npos) rd.strange ("NUL"); return true;
    case DISIR_VALUE_TYPE_ENUM: if (x.t != JV::STR) return false; v = Val::E (x.s); if (x.s.find ('\0') != std::string::npos) rd.strange ("NUL"); return true;
    }
    return false;
}
static inline void read_element (const std::string& name, const JV& x, const MEl& parent, Node& out, Reading& rd);
static inline void read_section (const JV& x, const MEl& e, Node& out, Reading& rd)
{
    for (auto& p : x.o) read_element (p.first, p.second, e, out, rd);
}
static inline void read_element (const std::string& name, const JV& x, const MEl& parent, Node& out, Reading& rd)
{
    if (x.t == JV::ARR) { for (auto& y : x.a) read_element (name, y, parent, out, rd); return; }   // a list of instances
    const MEl *e = parent.find (name);
    if (!e) { rd.bad ("unknown " + name); return; }
    if (x.t == JV::NUL) { rd.bad ("null " + name); return; }
    if (e->section != (x.t == JV::OBJ)) { rd.bad ("kind of " + name); return; }
    Node n;
    n.name = name;
    n.section = e->section;
    if (n.section) read_section (x, *e, n, rd);
    else if (!typed (x, e->vtype, n.v, rd)) { rd.bad ("type of " + name); return; }
    out.kids.push_back (n);
}
static inline MConfig read_config (const JV& root, const MMold& m, Reading& rd)
{
    MConfig c;
    if (number_beyond (root)) rd.strange ("number beyond a double");
    c.root.section = true;
    const JV *v = root.get ("version"), *b = root.get ("config");
    if (!v || !text_version (*v, c.ver)) rd.bad ("version");
    else if (c.ver > m.ver) rd.bad ("version above the mold's");
    if (!b || b->t != JV::OBJ) { rd.bad ("no config"); return c; }
    read_section (*b, m, c.root, rd);
    if (!rd.fault)
    {
        std::set<std::string> bad;
        invalid_parts (m, c.ver, c.root, "", bad, true);
        if (!bad.empty ()) rd.bad ("rules: " + *bad.begin ());
    }
    return c;
}
// ---- molds --------------------------------------------------------------------------------------
static inline void opt_version (const JV& x, const char *key, Ver& out, Reading& rd)
{
    const JV *v = x.get (key);
    if (!v || v->null ()) return;
    if (!text_version (*v, out)) rd.bad (std::string (key) + " is no version");
}
static inline void opt_doc (const JV& x, std::vector<MDoc>& out, Reading& rd)
{
    const JV *v = x.get ("documentation");
    if (!v || v->null ()) return;
    if (v->t != JV::STR) { rd.bad ("documentation"); return; }
    if (v->s.empty () || v->s.find ('\0') != std::string::npos) { rd.strange ("documentation text"); return; }
    out.push_back ({Ver {0, 0}, v->s});
}
static inline MRes read_restriction (const JV& x, int vtype, bool section, Reading& rd)
{
    MRes r;
    r.intro = Ver {1, 0};
    if (x.t != JV::OBJ) { rd.bad ("restriction is no object"); return r; }
    const JV *t = x.get ("type"), *v = x.get ("value");
    if (!t || t->t != JV::STR) { rd.bad ("restriction type"); return r; }
    if (!v || v->null ()) { rd.bad ("restriction without value"); return r; }
    opt_version (x, "introduced", r.intro, rd);
    opt_version (x, "deprecated", r.depr, rd);
    if (!r.depr.zero () && r.depr <= r.intro) rd.strange ("deprecated before introduced");
    if (r.intro.zero ()) rd.strange ("introduced 0.0");
    int64_t i;
    if (t->s == "MINIMUM_ENTRIES" || t->s == "MAXIMUM_ENTRIES")
    {
        bool mn = t->s[1] == 'I';
        r.type = mn ? DISIR_RESTRICTION_INC_ENTRY_MIN : DISIR_RESTRICTION_INC_ENTRY_MAX;
        if (v->t != JV::NUM) { rd.bad ("limit"); return r; }
        if (!v->int64 (i) || i < 0 || i > INT32_MAX) { rd.strange ("limit"); return r; }
        (mn ? r.lo : r.hi) = (double) i;
        rd.odd |= !mn && i == 0 && false;
    }
    else if (t->s == "ENUM")
    {
        r.type = DISIR_RESTRICTION_EXC_VALUE_ENUM;
        if (v->t != JV::STR) { rd.bad ("enum restriction"); return r; }
        if (section || vtype != DISIR_VALUE_TYPE_ENUM || v->s.find ('\0') != std::string::npos || v->s.empty ()) rd.strange ("enum restriction");
        r.s = v->s;
    }
    else if (t->s == "NUMERIC")
    {
        r.type = DISIR_RESTRICTION_EXC_VALUE_NUMERIC;
        if (v->t != JV::NUM) { rd.bad ("numeric restriction"); return r; }
        r.lo = v->num ();
        if (!std::isfinite (r.lo)) rd.strange ("number");
    }
    else if (t->s == "RANGE")
    {
        r.type = DISIR_RESTRICTION_EXC_VALUE_RANGE;
        if (v->t != JV::ARR || v->a.size () != 2 || v->a[0].t != JV::NUM || v->a[1].t != JV::NUM) { rd.bad ("range"); return r; }
        r.lo = v->a[0].num ();
        r.hi = v->a[1].num ();
        if (!std::isfinite (r.lo) || !std::isfinite (r.hi)) rd.strange ("number");
        if (r.lo > r.hi) rd.bad ("range upside down");
        if (r.lo == r.hi) rd.strange ("empty range");
    }
    else { rd.bad ("restriction type " + t->s); return r; }
    if (r.type == DISIR_RESTRICTION_EXC_VALUE_NUMERIC || r.type == DISIR_RESTRICTION_EXC_VALUE_RANGE)
        if (section || (vtype != DISIR_VALUE_TYPE_INTEGER && vtype != DISIR_VALUE_TYPE_FLOAT)) rd.strange ("restriction on this type");
    opt_doc (x, r.docs, rd);
    if (vtype == DISIR_VALUE_TYPE_INTEGER && r.value ())
    {
        // bounds of integers are whole numbers
        r.lo = trunc (r.lo); r.hi = trunc (r.hi);
        if (fabs (r.lo) > 9e18 || fabs (r.hi) > 9e18) rd.strange ("number");
    }
    r.lo += 0.0; r.hi += 0.0;
    return r;
}
static inline bool legal_name (const std::string& n)
{
    for (char c : n) if (!((c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '_')) return false;
    return !n.empty ();
}
static inline void read_elements (const JV& x, MEl& out, Reading& rd)
{
    for (auto& p : x.o)
    {
        const JV& y = p.second;
        MEl e;
        e.name = p.first;
        if (!legal_name (e.name)) rd.bad ("name " + e.name);
        if (e.name.size () > 2000) rd.strange ("long name");
        if (y.t != JV::OBJ) { rd.bad ("element " + e.name); continue; }
        const JV *els = y.get ("elements"), *t = y.get ("type"), *defs = y.get ("defaults");
        static const char *types[] = {"", "STRING", "INTEGER", "FLOAT", "BOOLEAN", "ENUM"};
        static const int ids[] = {0, DISIR_VALUE_TYPE_STRING, DISIR_VALUE_TYPE_INTEGER, DISIR_VALUE_TYPE_FLOAT, DISIR_VALUE_TYPE_BOOLEAN, DISIR_VALUE_TYPE_ENUM};
        if (els && !els->null ())
        {
            e.section = true;
            e.intro = Ver {1, 0};
            if (els->t != JV::OBJ) { rd.bad ("elements"); continue; }
            if (t && !t->null ()) rd.strange ("section with a type");
            if (defs && !defs->null ()) rd.strange ("section with defaults");
            opt_version (y, "introduced", e.intro, rd);
            if (e.intro.zero ()) rd.strange ("introduced 0.0");
        }
        else
        {
            if (!t || t->t != JV::STR) { rd.bad ("type"); continue; }
            for (int i = 1; i < 6; i++) if (t->s == types[i]) e.vtype = ids[i];
            if (!e.vtype) { rd.bad ("type " + t->s); continue; }
        }
        opt_version (y, "deprecated", e.depr, rd);
        opt_doc (y, e.docs, rd);
        if (const JV *rs = y.get ("restrictions"))
            if (!rs->null ())
            {
                if (rs->t != JV::ARR) rd.bad ("restrictions");
                else for (auto& z : rs->a) e.res.push_back (read_restriction (z, e.vtype, e.section, rd));
            }
        for (size_t i = 0; i < e.res.size (); i++)
            for (size_t j = 0; j < i; j++) if (!e.res[i].value () && e.res[i].type == e.res[j].type && e.res[i].intro == e.res[j].intro) rd.bad ("two limits of one version");
        if (e.section) read_elements (*els, e, rd);
        else
        {
            if (!defs || defs->t != JV::ARR || defs->a.empty ()) { rd.bad ("defaults"); continue; }
            std::set<Ver> seen;
            for (auto& z : defs->a)
            {
                MDef d;
                d.intro = Ver {1, 0};
                if (z.t != JV::OBJ) { rd.bad ("default"); continue; }
                const JV *v = z.get ("value");
                if (!v || !typed (*v, e.vtype, d.v, rd)) { rd.bad ("default value of " + e.name); continue; }
                opt_version (z, "introduced", d.intro, rd);
                if (d.intro.zero ()) rd.strange ("introduced 0.0");
                if (!seen.insert (d.intro).second) rd.bad ("two defaults of one version");
                e.defs.push_back (d);
            }
            for (auto& d : e.defs) if (!accepts (e, d.intro, d.v)) rd.strange ("default the restrictions refuse");
            std::sort (e.defs.begin (), e.defs.end (), [] (const MDef& a, const MDef& b) { return a.intro < b.intro; });
        }
        if (!e.depr.zero () && e.depr <= el_introduced (e)) rd.strange ("deprecated before introduced");
        out.kids.push_back (e);
    }
}
static inline MMold read_mold (const JV& root, Reading& rd)
{
    MMold m;
    if (number_beyond (root)) rd.strange ("number beyond a double");
    if (root.t != JV::OBJ) { rd.bad ("no object"); return m; }
    const JV *b = root.get ("mold"), *v = root.get ("version");
    opt_doc (root, m.docs, rd);
    if (!b || b->t != JV::OBJ) { rd.bad ("no mold"); return m; }
    read_elements (*b, m, rd);
    m.ver = mold_version (m);
    if (v && !v->null ())
    {
        Ver x;
        if (!text_version (*v, x)) rd.bad ("version");
        else { if (x < m.ver) rd.strange ("version below that of an element"); m.ver = x; }
    }
    return m;
}
