// C14: comparison verdicts and reports.
#include "dis.hh"
const char *PROPERTY = "C14";
const char *RULE = "one pair of configurations or molds, compared whole and part by part in both directions; distinct by the two contents; non-trivial: the pair has at least 3 elements";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"compared", 60000}, {"equal", 15000}, {"different", 12000}, {"single_value", 800}, {"single_attribute", 700}, {"count_differs", 300}, {"order_of_names", 100}, {"order_of_instances", 40},
    {"version_only", 150}, {"parts", 20000}, {"many_differences", 20}, {"long_texts", 200}};
long driver_directed () { return 0; }
void driver_setup () {}

// same elements, instances of one name in order; the order between names does not count
static bool same_val (const Val& a, const Val& b)
{
    if (a.type == DISIR_VALUE_TYPE_FLOAT && b.type == a.type) return a.d == b.d;
    return a == b;
}
static bool same (const Node& a, const Node& b)
{
    if (a.section != b.section) return false;
    if (!a.section) return same_val (a.v, b.v);
    std::map<std::string, std::vector<const Node *>> x, y;
    for (auto& k : a.kids) x[k.name].push_back (&k);
    for (auto& k : b.kids) y[k.name].push_back (&k);
    if (x.size () != y.size ()) return false;
    for (auto& p : x)
    {
        auto f = y.find (p.first);
        if (f == y.end () || f->second.size () != p.second.size ()) return false;
        for (size_t i = 0; i < p.second.size (); i++) if (!same (*p.second[i], *f->second[i])) return false;
    }
    return true;
}
static bool same_docs (const std::vector<MDoc>& a, const std::vector<MDoc>& b)
{
    if (a.size () != b.size ()) return false;
    for (size_t i = 0; i < a.size (); i++) if (!(a[i].intro == b[i].intro) || a[i].text != b[i].text) return false;
    return true;
}
static bool same (const MEl& a, const MEl& b, bool root = false)
{
    if (a.section != b.section) return false;
    if (!same_docs (a.docs, b.docs)) return false;
    if (!root)
    {
        if (a.section && !(a.intro == b.intro)) return false;
        if (!(a.depr == b.depr)) return false;
        if (a.res.size () != b.res.size ()) return false;
        for (size_t i = 0; i < a.res.size (); i++)
        {
            auto &p = a.res[i], &q = b.res[i];
            if (p.type != q.type || !(p.intro == q.intro) || !(p.depr == q.depr) || !same_docs (p.docs, q.docs)) return false;
            // bounds of integer entries are kept as whole numbers
            auto whole = [&] (double d) { return !a.section && a.vtype == DISIR_VALUE_TYPE_INTEGER ? trunc (d) : d; };
            switch (p.type)
            {
            case DISIR_RESTRICTION_EXC_VALUE_ENUM: if (p.s != q.s) return false; break;
            case DISIR_RESTRICTION_EXC_VALUE_RANGE: if (whole (p.lo) != whole (q.lo) || whole (p.hi) != whole (q.hi)) return false; break;
            case DISIR_RESTRICTION_INC_ENTRY_MAX: if (p.hi != q.hi) return false; break;
            default: if (whole (p.lo) != whole (q.lo)) return false;
            }
        }
    }
    if (!a.section)
    {
        if (a.vtype != b.vtype || a.defs.size () != b.defs.size ()) return false;
        for (size_t i = 0; i < a.defs.size (); i++) if (!(a.defs[i].intro == b.defs[i].intro) || !same_val (a.defs[i].v, b.defs[i].v)) return false;
        return true;
    }
    if (a.kids.size () != b.kids.size ()) return false;
    for (auto& k : a.kids) { auto *f = b.find (k.name); if (!f || !same (k, *f)) return false; }
    return true;
}
// a value different from v by as little as possible
static Val nudge (Rng& r, const Val& v, const GenOpt& o)
{
    Val x = v;
    switch (v.type)
    {
    case DISIR_VALUE_TYPE_INTEGER:
        if (r.chance (1, 3)) x.i = (int64_t) ((uint64_t) v.i ^ ((uint64_t) 1 << r.below (64)));
        else x.i = v.i == INT64_MAX ? v.i - 1 : v.i + 1;
        break;
    case DISIR_VALUE_TYPE_FLOAT:
        x.d = r.chance (1, 3) ? -v.d : nextafter (v.d, r.chance (1, 2) ? 1e308 : -1e308);
        break;
    case DISIR_VALUE_TYPE_BOOLEAN: x.b = !v.b; break;
    default:
        switch (r.below (4))
        {
        case 0: x.s += r.pick ({"x", " ", "\xc3\xa9", "0"}); break;
        case 1: if (!x.s.empty ()) x.s.erase (x.s.size () - 1); else x.s = "a"; break;
        case 2: if (!x.s.empty ()) { char& ch = x.s[x.s.size () - 1]; ch = ch == 'z' ? 'y' : 'z'; } else x.s = "b"; break;
        default: x.s = gen_string (r, o);
        }
    }
    return x;
}
static void all_nodes (Node& n, std::vector<Node *>& kv, std::vector<Node *>& secs)
{
    secs.push_back (&n);
    for (auto& k : n.kids) if (k.section) all_nodes (k, kv, secs); else kv.push_back (&k);
}
static void all_els (MEl& e, std::vector<MEl *>& kv, std::vector<MEl *>& secs)
{
    secs.push_back (&e);
    for (auto& k : e.kids) if (k.section) all_els (k, kv, secs); else kv.push_back (&k);
}
static void free_report (struct disir_diff_report *rep)
{
    if (!rep) return;
    for (int i = 0; i < rep->dr_entries; i++) free (rep->dr_diff_string[i]);
    free (rep->dr_diff_string);
    free (rep);
}
static void judge (Case& c, struct disir_context *a, struct disir_context *b, bool equal, const std::string& what)
{
    enum disir_status st[2];
    for (int d = 0; d < 2; d++)
    {
        struct disir_diff_report *rep = nullptr;
        bool want = c.r.chance (4, 5);
        st[d] = dc_compare (d ? b : a, d ? a : b, want ? &rep : nullptr);
        c.count ("compared");
        if (st[d] != (equal ? DISIR_STATUS_OK : DISIR_STATUS_CONFLICT)) c.violation (equal ? "equal" : "different", "comparing %s%s returned %s, expected %s", what.c_str (), d ? " (exchanged)" : "", sname (st[d]), equal ? "OK" : "CONFLICT");
        if (!want) continue;
        if (equal && rep) c.violation ("report:equal", "comparing equal %s gave a report of %d differences", what.c_str (), rep->dr_entries);
        if (!equal && st[d] == DISIR_STATUS_CONFLICT)
        {
            if (!rep || rep->dr_entries < 1) c.violation ("report:missing", "comparing different %s gave no difference report", what.c_str ());
            for (int i = 0; rep && i < rep->dr_entries; i++)
            {
                if (!rep->dr_diff_string[i] || !*rep->dr_diff_string[i]) c.violation ("report:empty", "an empty difference");
                else if (strlen (rep->dr_diff_string[i]) > 127) c.count ("long_texts");
            }
            if (rep && rep->dr_entries > 20) c.count ("many_differences");
        }
        free_report (rep);
    }
    c.count (equal ? "equal" : "different");
}
// the parts at the same place on both sides
template <class T> static void parts (Case& c, struct disir_context *a, struct disir_context *b, const T& x, const T& y, const std::string& at)
{
    std::map<std::string, unsigned> idx;
    std::map<std::string, std::vector<const T *>> ys;
    for (auto& k : y.kids) ys[k.name].push_back (&k);
    for (auto& k : x.kids)
    {
        unsigned i = idx[k.name]++;
        auto& l = ys[k.name];
        if (i >= l.size () || l[i]->section != k.section || c.failed) continue;
        struct disir_context *p = nullptr, *q = nullptr;
        if (EXPECT_OK (c, dc_find_element (a, k.name.c_str (), i, &p)) && EXPECT_OK (c, dc_find_element (b, k.name.c_str (), i, &q)))
        {
            auto w = at + "/" + k.name + strf ("@%u", i);
            judge (c, p, q, same (k, *l[i]), w);
            c.count ("parts");
            if (k.section) parts (c, p, q, k, *l[i], w);
        }
        if (p) dc_putcontext (&p);
        if (q) dc_putcontext (&q);
    }
}
static std::string mutate_config (Rng& r, const MMold& m, MConfig& b, const GenOpt& o, int tries)
{
    for (; tries > 0; tries--)
    {
        MConfig w = b;
        std::vector<Node *> kv, secs;
        all_nodes (w.root, kv, secs);
        std::string what;
        switch (r.below (7))
        {
        case 0: case 1: if (!kv.empty ()) { auto *n = r.pick (kv); n->v = nudge (r, n->v, o); what = "single_value"; } break;
        case 2: { auto *s = r.pick (secs); if (!s->kids.empty ()) { s->kids.erase (s->kids.begin () + r.below (s->kids.size ())); what = "count_differs"; } break; }
        case 3: { auto *s = r.pick (secs); if (!s->kids.empty ()) { Node k = r.pick (s->kids); s->kids.insert (s->kids.begin () + r.below (s->kids.size () + 1), k); what = "count_differs"; } break; }
        case 4:
        {
            auto *s = r.pick (secs);
            if (s->kids.size () < 2) break;
            size_t i = r.below (s->kids.size ()), j = r.below (s->kids.size ());
            if (s->kids[i].name == s->kids[j].name) { if (i == j || same (s->kids[i], s->kids[j])) break; std::swap (s->kids[i], s->kids[j]); what = "order_of_instances"; break; }
            // neighbours of other names trade places: still equal
            if (j != i + 1) break;
            std::swap (s->kids[i], s->kids[j]);
            what = "order_of_names";
            break;
        }
        case 5: w.ver = r.pick (breakpoints (m)); if (!(w.ver == b.ver)) what = "version_only"; break;
        default:
            w.root = gen_config (r, m, w.ver, o);
            w.root.name = ""; w.root.section = true;
            what = "independent";
        }
        if (what.empty ()) continue;
        std::set<std::string> bad;
        invalid_parts (m, w.ver, w.root, "", bad);
        if (!bad.empty ()) continue;
        b = w;
        return what;
    }
    return "";
}
static std::string mutate_mold (Rng& r, MMold& b, const GenOpt& o)
{
    MMold w = b;
    std::vector<MEl *> kv, secs;
    all_els (w, kv, secs);
    std::vector<MEl *> all = kv;
    for (auto *s : secs) all.push_back (s);
    std::string what;
    switch (r.below (10))
    {
    case 0: if (!kv.empty ()) { auto *e = r.pick (kv); auto& d = e->defs[r.below (e->defs.size ())]; d.v = nudge (r, d.v, o); what = "single_value"; } break;
    case 1:
        if (!kv.empty ())
        {
            auto *e = r.pick (kv);
            size_t i = r.below (e->defs.size ());
            Ver v = gen_ver (r);
            bool dup = false;
            for (auto& d : e->defs) dup |= d.intro == v;
            if (dup) break;
            if (r.chance (1, 2)) e->defs[i].intro = v;
            else e->defs.push_back ({v, e->defs[i].v});
            std::sort (e->defs.begin (), e->defs.end (), [] (const MDef& p, const MDef& q) { return p.intro < q.intro; });
            what = "single_attribute";
        }
        break;
    case 2: case 3:
    {
        auto *e = r.pick (all);
        if (e == &w || e->res.empty ()) break;
        size_t i = r.below (e->res.size ());
        auto& x = e->res[i];
        switch (r.below (6))
        {
        case 0: x.intro = {x.intro.a, x.intro.b + 1}; for (auto& y : e->res) if (&y != &x && y.type == x.type && y.intro == x.intro) return ""; if (!x.depr.zero () && x.depr <= x.intro) return ""; break;
        case 1: x.depr = x.depr.zero () ? Ver {x.intro.a, x.intro.b + 3} : Ver {x.depr.a, x.depr.b + 1}; break;
        case 2:
            if (x.type == DISIR_RESTRICTION_EXC_VALUE_ENUM) x.s += "q";
            else if (x.type == DISIR_RESTRICTION_INC_ENTRY_MAX) x.hi += 1;
            else if (x.type == DISIR_RESTRICTION_INC_ENTRY_MIN) x.lo += 1;
            else if (x.type == DISIR_RESTRICTION_EXC_VALUE_RANGE && r.chance (1, 2)) x.hi = nextafter (x.hi, 1e308);
            else x.lo = nextafter (x.lo, -1e308);
            break;
        case 3: e->res.erase (e->res.begin () + i); break;
        case 4: if (i + 1 < e->res.size ()) std::swap (e->res[i], e->res[i + 1]); else return ""; break;
        default: if (x.docs.empty ()) x.docs.push_back ({{0, 0}, "new"}); else x.docs[0].text += "!";
        }
        what = "single_attribute";
        break;
    }
    case 4:
    {
        auto *e = r.pick (all);
        if (e->docs.empty ()) e->docs.push_back ({{0, 0}, gen_string (r, o) + "."});
        else if (r.chance (1, 3)) e->docs.clear ();
        else { e->docs[0].text = nudge (r, Val::S (e->docs[0].text), o).s; if (e->docs[0].text.empty ()) e->docs[0].text = "-"; }
        what = "single_attribute";
        break;
    }
    case 5:
    {
        auto *e = r.pick (all);
        if (e == &w) break;
        if (e->section && r.chance (1, 2)) { e->intro = {e->intro.a, e->intro.b + 1}; if (!e->depr.zero () && e->depr <= e->intro) return ""; }
        else e->depr = e->depr.zero () ? Ver {el_introduced (*e).a + 3, 0} : Ver {e->depr.a, e->depr.b + 1};
        what = "single_attribute";
        break;
    }
    case 6: { auto *s = r.pick (secs); if (!s->kids.empty ()) { s->kids.erase (s->kids.begin () + r.below (s->kids.size ())); what = "count_differs"; } break; }
    case 7: { auto *s = r.pick (secs); if (s->kids.size () > 1) { size_t i = r.below (s->kids.size ()), j = r.below (s->kids.size ()); if (i != j) { std::swap (s->kids[i], s->kids[j]); what = "order_of_names"; } } break; }
    case 8:
    {
        // another type, another name
        if (kv.empty ()) break;
        auto *e = r.pick (kv);
        if (r.chance (1, 2)) { e->name += "x"; for (auto *s : secs) { int n = 0; for (auto& k : s->kids) n += k.name == e->name; if (n > 1) return ""; } }
        else
        {
            e->vtype = e->vtype == DISIR_VALUE_TYPE_STRING ? DISIR_VALUE_TYPE_BOOLEAN : DISIR_VALUE_TYPE_STRING;
            e->res.erase (std::remove_if (e->res.begin (), e->res.end (), [] (const MRes& q) { return q.value (); }), e->res.end ());
            for (auto& d : e->defs) d.v = gen_value (r, e->vtype, o);
        }
        what = "single_attribute";
        break;
    }
    default: what = "independent"; w = gen_mold (r, o);
    }
    if (what.empty ()) return "";
    if (w.kids.empty ()) return "";
    w.ver = mold_version (w);
    b = w;
    return what;
}
void driver_case (Case& c)
{
    Rng& r = c.r;
    GenOpt o;
    o.strings = (int) r.below (3);
    o.depth = (int) r.range (1, 4); o.width = 5;
    o.multi_docs = true;
    MMold m = gen_mold (r, o);
    int n = r.chance (1, 4) ? 0 : r.chance (2, 3) ? 1 : (int) r.range (2, 4);
    if (r.chance (1, 3))
    {
        MMold b = m;
        for (int i = 0; i < n; i++) { std::string w; for (int t = 0; t < 8 && w.empty (); t++) w = mutate_mold (r, b, o); c.log ("%s", w.c_str ()); if (n == 1 && !w.empty ()) c.count (w.c_str ()); }
        bool equal = same (m, b, true);
        c.log ("a: %sb: %s", m.mstr ().substr (0, 4000).c_str (), b.mstr ().substr (0, 4000).c_str ());
        auto *x = build_mold (c, m);
        auto *y = x ? build_mold (c, b) : nullptr;
        if (x && y)
        {
            auto *p = dc_mold_getcontext (x), *q = dc_mold_getcontext (y);
            MMold d1, d2;
            dump_mold (c, x, d1, {});
            judge (c, p, p, true, "a mold with itself");
            judge (c, p, q, equal, "molds");
            parts<MEl> (c, p, q, m, b, "");
            dump_mold (c, x, d2, {});
            if (!c.failed && !first_difference (d1, d2).empty ()) c.violation ("changed", "comparing changed a mold: %s", first_difference (d1, d2).c_str ());
            dc_putcontext (&p); dc_putcontext (&q);
            if (m.kids.size () >= 3) c.nontrivial (m.mstr () + b.mstr ());
        }
        if (x) disir_mold_finished (&x);
        if (y) disir_mold_finished (&y);
        return;
    }
    MConfig a;
    a.ver = r.pick (breakpoints (m));
    a.root = gen_config (r, m, a.ver, o);
    a.root.name = ""; a.root.section = true;
    MConfig b = a;
    for (int i = 0; i < n; i++) { auto w = mutate_config (r, m, b, o, 20); c.log ("%s", w.c_str ()); if (n == 1 && !w.empty ()) c.count (w.c_str ()); }
    bool equal = same (a.root, b.root);
    c.log ("%s--- a\n%s--- b\n%s", m.mstr ().substr (0, 4000).c_str (), a.str ().substr (0, 4000).c_str (), b.str ().substr (0, 4000).c_str ());
    auto *mold = build_mold (c, m);
    if (!mold) return;
    // the second may belong to a mold of its own with the same content
    struct disir_mold *mold2 = r.chance (1, 3) ? build_mold (c, m) : nullptr;
    auto *x = build_config (c, mold, a);
    auto *y = x ? build_config (c, mold2 ? mold2 : mold, b) : nullptr;
    if (x && y)
    {
        auto *p = dc_config_getcontext (x), *q = dc_config_getcontext (y);
        judge (c, p, p, true, "a configuration with itself");
        judge (c, p, q, equal, "configurations");
        parts<Node> (c, p, q, a.root, b.root, "");
        MConfig d;
        if (!c.failed && dump_config (c, x, d) && !(d == a)) c.violation ("changed", "comparing changed the left side: %s", first_difference (a.root, d.root).c_str ());
        if (!c.failed && dump_config (c, y, d) && !(d == b)) c.violation ("changed", "comparing changed the right side: %s", first_difference (b.root, d.root).c_str ());
        dc_putcontext (&p); dc_putcontext (&q);
        if (a.root.kids.size () >= 3) c.nontrivial (a.str () + b.str ());
        if (c.no % 401 == 2) c.sample (std::string (equal ? "equal" : "different") + ":\n" + a.str ().substr (0, 250) + "---\n" + b.str ().substr (0, 250));
    }
    if (x) disir_config_finished (&x);
    if (y) disir_config_finished (&y);
    if (mold2) disir_mold_finished (&mold2);
    disir_mold_finished (&mold);
}
