// C06: the validity verdict and the listing of invalid parts, on configurations and molds with planted breaches.
#include "valid.inc"
const char *PROPERTY = "C06";
const char *RULE = "one configuration or mold; distinct by mold, version and content; non-trivial: at least one breach, or a valid object with a section";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"configs_valid", 300}, {"configs_invalid", 1000}, {"molds_valid", 100}, {"molds_invalid", 200}, {"breaches_nested", 500}, {"several_breaches", 500}};
long driver_directed () { return 0; }
void driver_setup () {}

static void mutate (Case& c, MMold& m, Node& root, Ver v, GenOpt& o)
{
    Rng& r = c.r;
    Node *at = pick_section (r, root);
    const MEl *e = mold_of (m, root, at);
    if (!e) return;
    switch (r.below (7))
    {
    case 0:                                   // unknown entry
    case 1:
    {
        Node n;
        n.name = r.chance (1, 4) ? gen_illegal_name (r) : "zz_" + gen_name (r);
        if (e->find (n.name)) return;
        n.section = r.chance (1, 3);
        if (n.section) { Node k; k.name = r.chance (1, 2) && !e->kids.empty () ? e->kids[0].name : "kid"; k.v = gen_value (r, (int) r.range (1, 5), o); n.kids.push_back (k); }
        else n.v = gen_value (r, (int) r.range (1, 5), o);
        at->kids.insert (at->kids.begin () + r.below (at->kids.size () + 1), n);
        c.log ("unknown %s in %s", n.name.c_str (), at->name.c_str ());
        break;
    }
    case 2: case 3:                           // occurrences
    {
        if (at->kids.empty ()) return;
        size_t i = r.below (at->kids.size ());
        c.log ("%s in %s", at->kids[i].name.c_str (), at->name.c_str ());
        if (r.chance (1, 2)) at->kids.erase (at->kids.begin () + i);
        else for (int n = (int) r.range (1, 4); n > 0; n--) { Node k = at->kids[i]; at->kids.push_back (k); }
        break;
    }
    case 4:                                   // an element not admitted, or not present, at this version
    {
        if (e->kids.empty ()) return;
        auto& k = r.pick (e->kids);
        Node n; n.name = k.name; n.section = k.section;
        if (k.section) n = gen_config (r, k, v, o);
        else n.v = gen_accepted (r, k, v, o);
        at->kids.push_back (n);
        c.log ("one more %s in %s", n.name.c_str (), at->name.c_str ());
        break;
    }
    default:                                  // value
    {
        std::vector<Node *> kv;
        for (auto& k : at->kids) if (!k.section) kv.push_back (&k);
        if (kv.empty ()) return;
        Node *k = kv[r.below (kv.size ())];
        const MEl *q = e->find (k->name);
        Val x;
        if (q && !q->section && r.chance (1, 2) && gen_rejected (r, *q, v, o, x)) k->v = x;
        else { int t = k->v.type; do k->v = gen_value (r, (int) r.range (1, 5), o); while (k->v.type == t); }
        c.log ("value of %s", k->name.c_str ());
    }
    }
}
static void config_case (Case& c)
{
    Rng& r = c.r;
    GenOpt o;
    o.strings = 1;
    o.depth = (int) r.range (1, 4);
    MMold m = gen_mold (r, o);
    auto *mold = build_mold (c, m);
    if (!mold) return;
    Ver v = r.pick (breakpoints (m));
    Node root = gen_config (r, m, v, o);
    root.name = "";
    int n = r.chance (1, 5) ? 0 : (int) r.range (1, 5);
    for (int i = 0; i < n; i++) mutate (c, m, root, v, o);
    std::set<std::string> want;
    invalid_parts (m, v, root, "", want);
    c.log ("%sat %s:\n%s", m.mstr ().substr (0, 6000).c_str (), v.str ().c_str (), root.str ().substr (0, 4000).c_str ());
    for (auto& w : want) c.log ("breaks a rule: %s", w.empty () ? "(root)" : w.c_str ());
    struct disir_context *h = nullptr;
    struct disir_config *cfg = nullptr;
    bool ok = EXPECT_OK (c, dc_config_begin (mold, &h));
    auto raw = v.raw ();
    if (ok) ok = EXPECT_OK (c, dc_set_version (h, &raw));
    for (auto& k : root.kids) ok = ok && build_any (c, h, k, &m, v);
    if (ok)
    {
        auto st = dc_config_finalize (&h, &cfg);
        if (!cfg) c.violation ("finalize:object", "dc_config_finalize returned %s and no configuration", sname (st));
        if ((st == DISIR_STATUS_OK) != want.empty () || (st != DISIR_STATUS_OK && st != DISIR_STATUS_INVALID_CONTEXT))
            c.violation (strf ("finalize:%s", want.empty () ? "valid" : "invalid"), "dc_config_finalize returned %s", sname (st));
    }
    if (h) dc_destroy (&h);
    if (cfg)
    {
        auto *ctx = dc_config_getcontext (cfg);
        {
            Built b;
            map_paths (c, ctx, "", &m, b);
            for (int round = 0; round < 2 && !c.failed; round++)
            {
                struct disir_collection *col = nullptr;
                auto st = disir_config_valid (cfg, &col);
                check_verdict (c, st, col, b, want, "config");
                if (col) dc_collection_finished (&col);
                auto st2 = disir_config_valid (cfg, nullptr);
                if (st != st2) c.violation ("verdict:without-listing", "verdict is %s with and %s without the listing", sname (st), sname (st2));
            }
        }
        dc_putcontext (&ctx);
        MConfig back;
        Node cmp = root;
        bool unknown = false;
        std::function<void (const MEl&, const Node&)> scan = [&] (const MEl& e, const Node& n) { for (auto& k : n.kids) { auto *q = e.find (k.name); if (!q || q->section != k.section || (!k.section && (int) k.v.type != q->vtype)) unknown = true; else if (k.section) scan (*q, k); } };
        scan (m, root);
        if (!c.failed && !unknown && dump_config (c, cfg, back) && !(back.root == cmp)) c.violation ("content", "completed configuration differs from what was built: %s", first_difference (cmp, back.root).c_str ());
        c.count (want.empty () ? "configs_valid" : "configs_invalid");
        if (want.size () > 1) c.count ("several_breaches");
        for (auto& w : want) if (w.find ('.') != std::string::npos) { c.count ("breaches_nested"); break; }
        c.count ("breaches", (long) want.size ());
        if (!want.empty () || std::any_of (root.kids.begin (), root.kids.end (), [] (const Node& k) { return k.section; })) c.nontrivial (m.mstr () + v.str () + root.str ());
        if (c.no % 301 == 2) { std::string w; for (auto& x : want) w += (x.empty () ? "(root)" : x) + " "; c.sample ("configuration at " + v.str () + " with breaches at: " + w); }
        disir_config_finished (&cfg);
    }
    disir_mold_finished (&mold);
}

// molds: a name outside the alphabet, no type, no default
static bool mold_el (Case& c, struct disir_context *parent, const MEl& e, const std::map<const MEl *, int>& breach, const MEl *self, std::set<std::string>& want, const std::string& pre)
{
    struct disir_context *h = nullptr;
    int b = breach.count (self) ? breach.at (self) : 0;
    std::string name = b == 1 ? gen_illegal_name (c.r) : e.name;
    auto path = (pre.empty () ? "" : pre + ".") + name + "@0";
    if (b) { want.insert (path); c.log ("breach %d at %s", b, path.c_str ()); }
    if (!EXPECT_OK (c, dc_begin (parent, e.section ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &h))) return false;
    dc_set_name (h, name.c_str (), (int32_t) name.size ());
    bool ok = true;
    std::set<std::string> sub;
    if (!e.section)
    {
        if (b != 2) ok = EXPECT_OK (c, dc_set_value_type (h, (enum disir_value_type) e.vtype));
        if (b == 0 || b == 1) for (auto& d : e.defs) ok = ok && EXPECT_OK (c, add_default (h, d.v, d.intro));
    }
    for (auto& k : e.kids) ok = ok && mold_el (c, h, k, breach, &k, sub, path);
    if (!ok) { dc_destroy (&h); return false; }
    auto st = dc_finalize (&h);
    if ((st == DISIR_STATUS_OK) != (b == 0 && sub.empty ()) || (st != DISIR_STATUS_OK && st != DISIR_STATUS_INVALID_CONTEXT)) c.violation ("mold:finalize", "completing mold element %s (breach %d, %zu below) returned %s", name.c_str (), b, sub.size (), sname (st));
    if (h) dc_putcontext (&h);
    want.insert (sub.begin (), sub.end ());
    return true;
}
static void mold_case (Case& c)
{
    Rng& r = c.r;
    GenOpt o;
    o.strings = 1; o.restrictions = false; o.depth = (int) r.range (1, 4); o.types[DISIR_VALUE_TYPE_ENUM] = false;
    MMold m = gen_mold (r, o);
    std::map<const MEl *, int> breach;
    std::vector<const MEl *> all;
    std::function<void (const MEl&)> walk = [&] (const MEl& e) { for (auto& k : e.kids) { all.push_back (&k); walk (k); } };
    walk (m);
    if (!all.empty () && r.chance (3, 4))
        for (int n = (int) r.range (1, 3); n > 0; n--) { const MEl *e = r.pick (all); breach[e] = e->section ? 1 : (int) r.range (1, 3); }
    std::set<std::string> want;
    struct disir_context *h = nullptr;
    struct disir_mold *mold = nullptr;
    if (!EXPECT_OK (c, dc_mold_begin (&h))) return;
    bool ok = true;
    std::set<std::string> seen;
    for (auto& k : m.kids) ok = ok && mold_el (c, h, k, breach, &k, want, "");
    // two siblings given the same illegal name would need indices: leave those out
    if (ok)
    {
        auto st = dc_mold_finalize (&h, &mold);
        if (!mold) c.violation ("mold:object", "dc_mold_finalize returned %s and no mold", sname (st));
        if ((st == DISIR_STATUS_OK) != want.empty () || (st != DISIR_STATUS_OK && st != DISIR_STATUS_INVALID_CONTEXT)) c.violation ("mold:finalize-root", "dc_mold_finalize returned %s with %zu breaches", sname (st), want.size ());
    }
    if (h) dc_destroy (&h);
    if (mold)
    {
        auto *ctx = dc_mold_getcontext (mold);
        {
            Built b;
            map_paths (c, ctx, "", &m, b);
            bool ambiguous = false;
            for (auto& p : b.path) if (p.second.find ("@1") != std::string::npos) ambiguous = true;
            if (!ambiguous)
            {
                struct disir_collection *col = nullptr;
                auto st = disir_mold_valid (mold, &col);
                check_verdict (c, st, col, b, want, "mold");
                if (col) dc_collection_finished (&col);
                auto st2 = disir_mold_valid (mold, nullptr);
                if (st != st2) c.violation ("mold:verdict:without-listing", "verdict is %s with and %s without the listing", sname (st), sname (st2));
            }
        }
        dc_putcontext (&ctx);
        c.count (want.empty () ? "molds_valid" : "molds_invalid");
        std::string w; for (auto& x : want) w += x + " ";
        c.nontrivial (m.mstr () + w);
        disir_mold_finished (&mold);
    }
}
void driver_case (Case& c)
{
    if (c.r.chance (1, 4)) mold_case (c);
    else config_case (c);
}
