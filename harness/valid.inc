// Shared by C05 and C06: configurations with planted breaches, built through the API, judged by the library and by
// the model.
#include "dis.hh"

struct Built { std::map<struct disir_context *, std::string> path; std::map<struct disir_context *, const MEl *> equiv; std::vector<struct disir_context *> hs; ~Built () { for (auto *h : hs) dc_putcontext (&h); } };

// builds what the tree says, invalid or not
static bool build_any (Case& c, struct disir_context *parent, const Node& n, const MEl *pm, Ver v)
{
    const MEl *e = pm ? pm->find (n.name) : nullptr;
    bool known = e && e->section == n.section;
    std::set<std::string> bad;
    if (!known) bad.insert ("self");
    else if (n.section) invalid_parts (*e, v, n, "self", bad, true);
    else if (!accepts (*e, v, n.v)) bad.insert ("self");
    if (n.section && !known) {}
    struct disir_context *h = nullptr;
    if (!EXPECT_OK (c, dc_begin (parent, n.section ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &h))) return false;
    auto st = dc_set_name (h, n.name.c_str (), (int32_t) n.name.size ());
    if (known && st != DISIR_STATUS_OK) c.violation ("set_name", "naming a known element %s returned %s", n.name.c_str (), sname (st));
    if (!known && st == DISIR_STATUS_OK) c.violation ("set_name:unknown", "naming an element unknown to the mold (%s) returned OK", n.name.c_str ());
    if (!n.section)
    {
        st = set_value (h, n.v);
        bool good = known && accepts (*e, v, n.v);
        if (good && st != DISIR_STATUS_OK) c.violation ("set_value", "setting %s = %s returned %s", n.name.c_str (), n.v.str ().c_str (), sname (st));
        if (!good && st == DISIR_STATUS_OK) c.violation ("set_value:bad", "setting %s = %s, which is not admitted, returned OK", n.name.c_str (), n.v.str ().c_str ());
    }
    for (auto& k : n.kids) if (!build_any (c, h, k, known ? e : nullptr, v)) { dc_destroy (&h); return false; }
    auto *p = h;
    bool keep = c.r.chance (1, 3);
    st = keep ? dc_finalize_keep_reference (p) : dc_finalize (&p);
    if (bad.empty () && st != DISIR_STATUS_OK) c.violation ("finalize:valid", "completing %s, which breaks no rule, returned %s", n.name.c_str (), sname (st));
    if (!bad.empty () && st != DISIR_STATUS_INVALID_CONTEXT) c.violation ("finalize:invalid", "completing %s, which breaks a rule at %s, returned %s", n.name.c_str (), bad.begin ()->c_str (), sname (st));
    c.log ("completed %s: %s", n.name.c_str (), sname (st));
    if (st != DISIR_STATUS_OK && st != DISIR_STATUS_INVALID_CONTEXT) { dc_destroy (&h); return false; }
    if (keep) dc_putcontext (&h);
    else if (p) dc_putcontext (&p);
    return true;
}
static void map_paths (Case& c, struct disir_context *ctx, const std::string& pre, const MEl *e, Built& b)
{
    b.path[ctx] = pre;
    b.equiv[ctx] = e;
    if (dc_context_type (ctx) == DISIR_CONTEXT_KEYVAL) return;
    struct disir_collection *col = nullptr;
    if (!EXPECT_OK (c, dc_get_elements (ctx, &col))) return;
    std::map<std::string, int> idx;
    for (auto *h : collect (col))
    {
        b.hs.push_back (h);
        auto n = own_name (h);
        const MEl *k = e ? e->find (n) : nullptr;
        if (k && k->section != (dc_context_type (h) == DISIR_CONTEXT_SECTION)) k = nullptr;
        map_paths (c, h, (pre.empty () ? "" : pre + ".") + n + strf ("@%d", idx[n]++), k, b);
    }
    dc_collection_finished (&col);
}
// compares verdicts and listing with the model's
static void check_verdict (Case& c, enum disir_status verdict, struct disir_collection *col, Built& b, const std::set<std::string>& want, const char *what)
{
    std::set<std::string> got;
    auto text = [] (const std::set<std::string>& s) { std::string o; for (auto& x : s) o += (x.empty () ? "(root)" : x) + " "; return o; };
    if ((verdict == DISIR_STATUS_OK) != want.empty () || (verdict != DISIR_STATUS_OK && verdict != DISIR_STATUS_INVALID_CONTEXT))
        c.violation (strf ("%s:verdict:%s", what, want.empty () ? "valid" : "invalid"), "reported %s; parts breaking a rule: %s", sname (verdict), text (want).c_str ());
    if (want.empty () && col) c.violation (strf ("%s:listing-of-valid", what), "a valid object has a listing of %d parts", dc_collection_size (col));
    for (auto *h : collect (col))
    {
        auto it = b.path.find (h);
        if (it == b.path.end ()) c.violation (strf ("%s:foreign", what), "the listing names a part that is not in the object");
        else if (!got.insert (it->second).second) c.violation (strf ("%s:twice", what), "the listing names %s twice", it->second.c_str ());
        const char *e = dc_context_error (h);
        if (!e || !*e) c.violation (strf ("%s:no-error-text", what), "the listed part %s carries no error text", it == b.path.end () ? "?" : it->second.c_str ());
        dc_putcontext (&h);
    }
    if (got != want && !c.failed)
    {
        std::set<std::string> more, less;
        std::set_difference (got.begin (), got.end (), want.begin (), want.end (), std::inserter (more, more.end ()));
        std::set_difference (want.begin (), want.end (), got.begin (), got.end (), std::inserter (less, less.end ()));
        c.violation (strf ("%s:%s", what, more.empty () ? "missing" : "surplus"), "listed: %s| wrongly listed: %s| not listed: %s", text (got).c_str (), text (more).c_str (), text (less).c_str ());
    }
    for (auto& p : b.path)
    {
        auto st = dc_context_valid (p.first);
        bool bad = want.count (p.second);
        if ((st == DISIR_STATUS_OK) == bad && !c.failed) c.violation (strf ("%s:part-verdict", what), "%s is reported %s but %s", p.second.empty () ? "(root)" : p.second.c_str (), sname (st), bad ? "breaks a rule" : "breaks none");
    }
}
static Node *pick_section (Rng& r, Node& root)
{
    Node *n = &root;
    for (;;)
    {
        std::vector<Node *> s;
        for (auto& k : n->kids) if (k.section) s.push_back (&k);
        if (s.empty () || r.chance (1, 3)) return n;
        n = s[r.below (s.size ())];
    }
}
static const MEl *mold_of (const MEl& m, const Node& root, const Node *at)
{
    if (&root == at) return &m;
    for (auto& k : root.kids)
    {
        if (!k.section) continue;
        const MEl *e = m.find (k.name);
        if (!e) continue;
        if (const MEl *f = mold_of (*e, k, at)) return f;
    }
    return nullptr;
}
