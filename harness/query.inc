// Shared by C10 and C11: histories of path sets and gets on one configuration, against a model of paths.
#include "dis.hh"

struct Tok { std::string name; long idx; };
enum Parsed { WELL, MALFORMED, AMBIGUOUS };
static Parsed parse (const std::string& p, std::vector<Tok>& out)
{
    size_t i = 0;
    bool amb = false;
    out.clear ();
    for (;;)
    {
        size_t e = p.find ('.', i);
        std::string t = p.substr (i, e == std::string::npos ? e : e - i);
        size_t a = t.find ('@');
        Tok k {t.substr (0, a), 0};
        if (k.name.empty ()) return MALFORMED;
        if (a != std::string::npos)
        {
            std::string n = t.substr (a + 1);
            if (n.empty ()) return MALFORMED;
            bool digits = n.find_first_not_of ("0123456789") == std::string::npos;
            if (!digits)
            {
                // "+1", " 1", "-0": a number to strtol
                char *end = nullptr;
                long v = strtol (n.c_str (), &end, 10);
                if (end == n.c_str () || *end || v < 0) return MALFORMED;
                amb = true;
                k.idx = v;
            }
            else if (n.size () > 9) { std::string z = n; while (z.size () > 1 && z[0] == '0') z.erase (0, 1); if (z.size () > 10 || atoll (z.c_str ()) > INT32_MAX) return MALFORMED; k.idx = atol (z.c_str ()); if (z != n) amb = true; }
            else { k.idx = atol (n.c_str ()); if (n.size () > 1 && n[0] == '0') amb = true; }
        }
        out.push_back (k);
        if (e == std::string::npos) break;
        i = e + 1;
    }
    return amb ? AMBIGUOUS : WELL;
}
static Node *nth (Node& n, const std::string& name, long idx, long *count = nullptr)
{
    long c = 0;
    Node *f = nullptr;
    for (auto& k : n.kids) if (k.name == name) { if (c == idx) f = &k; c++; }
    if (count) *count = c;
    return f;
}
static Node *resolve (Node& root, const std::vector<Tok>& p)
{
    Node *n = &root;
    for (auto& t : p) { if (!n->section) return nullptr; n = nth (*n, t.name, t.idx); if (!n) return nullptr; }
    return n;
}
// applies the set to the model; "" or why it is refused
static std::string model_set (Node& root, const MEl& m, Ver v, const std::vector<Tok>& p, const Val& x, bool& created)
{
    created = false;
    Node work = root;
    Node *n = &work;
    const MEl *e = &m;
    for (size_t i = 0; i + 1 < p.size (); i++)
    {
        long cnt = 0;
        Node *k = nth (*n, p[i].name, p[i].idx, &cnt);
        const MEl *ke = e->find (p[i].name);
        if (!k)
        {
            if (!ke) return "unknown";
            if (!ke->section) return "keyval as section";
            if (p[i].idx != cnt) return "gap";
            auto l = limits (*ke, v);
            if (!l.active) return "not at version";
            if (l.hi != 0 && l.hi <= cnt) return "limit";
            Node s; s.name = ke->name; s.section = true;
            s.kids = expected_content (*ke, v);
            n->kids.push_back (s);
            k = &n->kids.back ();
            created = true;
        }
        else if (!k->section) return "keyval as section";
        n = k;
        e = ke;
    }
    auto& t = p.back ();
    long cnt = 0;
    Node *k = nth (*n, t.name, t.idx, &cnt);
    const MEl *ke = e->find (t.name);
    if (!ke) return "unknown";
    if (ke->section) return "section as keyval";
    if (x.type != ke->vtype) return "type";
    if (!accepts (*ke, v, x)) return "value";
    if (k) k->v = x;
    else
    {
        if (t.idx != cnt) return "gap";
        auto l = limits (*ke, v);
        if (!l.active) return "not at version";
        if (l.hi != 0 && l.hi <= cnt) return "limit";
        Node q; q.name = t.name; q.v = x;
        n->kids.push_back (q);
        created = true;
    }
    root = work;
    return "";
}
struct Q
{
    struct disir_config *cfg = nullptr;
    struct disir_context *ctx = nullptr;       // root, or the section queries start from
    bool at_root = true;
};
static enum disir_status qset (Case& c, Q& q, const std::string& p, const Val& v)
{
    bool high = q.cfg && q.at_root && c.r.chance (1, 2);
    const char *s = p.c_str ();
    switch (v.type)
    {
    case DISIR_VALUE_TYPE_ENUM: return high ? disir_config_set_keyval_enum (q.cfg, v.s.c_str (), "%s", s) : dc_config_set_keyval_enum (q.ctx, v.s.c_str (), "%s", s);
    case DISIR_VALUE_TYPE_INTEGER: return high ? disir_config_set_keyval_integer (q.cfg, v.i, "%s", s) : dc_config_set_keyval_integer (q.ctx, v.i, "%s", s);
    case DISIR_VALUE_TYPE_FLOAT: return high ? disir_config_set_keyval_float (q.cfg, v.d, "%s", s) : dc_config_set_keyval_float (q.ctx, v.d, "%s", s);
    case DISIR_VALUE_TYPE_STRING: return high ? disir_config_set_keyval_string (q.cfg, v.s.c_str (), "%s", s) : dc_config_set_keyval_string (q.ctx, v.s.c_str (), "%s", s);
    default: return high ? disir_config_set_keyval_boolean (q.cfg, v.b, "%s", s) : dc_config_set_keyval_boolean (q.ctx, v.b, "%s", s);
    }
}
// the same with the path's indices as arguments
static enum disir_status qset_fmt (Q& q, const std::vector<Tok>& p, const Val& v)
{
    std::string f;
    long a[3] = {0, 0, 0};
    for (size_t i = 0; i < p.size (); i++)
    {
        if (i) f += ".";
        f += p[i].name;
        if (i < 3) { a[i] = p[i].idx; f += "@%ld"; } else f += strf ("@%ld", p[i].idx);
    }
    const char *s = f.c_str ();
    switch (v.type)
    {
    case DISIR_VALUE_TYPE_ENUM: return dc_config_set_keyval_enum (q.ctx, v.s.c_str (), s, a[0], a[1], a[2]);
    case DISIR_VALUE_TYPE_INTEGER: return dc_config_set_keyval_integer (q.ctx, v.i, s, a[0], a[1], a[2]);
    case DISIR_VALUE_TYPE_FLOAT: return dc_config_set_keyval_float (q.ctx, v.d, s, a[0], a[1], a[2]);
    case DISIR_VALUE_TYPE_STRING: return dc_config_set_keyval_string (q.ctx, v.s.c_str (), s, a[0], a[1], a[2]);
    default: return dc_config_set_keyval_boolean (q.ctx, v.b, s, a[0], a[1], a[2]);
    }
}
static enum disir_status qget (Case& c, Q& q, const std::string& p, int type, Val& v)
{
    bool high = q.cfg && q.at_root && c.r.chance (1, 2);
    const char *s = p.c_str ();
    v = Val ();
    v.type = type;
    const char *t = nullptr;
    enum disir_status st;
    switch (type)
    {
    case DISIR_VALUE_TYPE_ENUM: st = high ? disir_config_get_keyval_enum (q.cfg, &t, "%s", s) : dc_config_get_keyval_enum (q.ctx, &t, "%s", s); break;
    case DISIR_VALUE_TYPE_INTEGER: return high ? disir_config_get_keyval_integer (q.cfg, &v.i, "%s", s) : dc_config_get_keyval_integer (q.ctx, &v.i, "%s", s);
    case DISIR_VALUE_TYPE_FLOAT: return high ? disir_config_get_keyval_float (q.cfg, &v.d, "%s", s) : dc_config_get_keyval_float (q.ctx, &v.d, "%s", s);
    case DISIR_VALUE_TYPE_STRING: st = high ? disir_config_get_keyval_string (q.cfg, &t, "%s", s) : dc_config_get_keyval_string (q.ctx, &t, "%s", s); break;
    default: { uint8_t b = 0; st = high ? disir_config_get_keyval_boolean (q.cfg, &b, "%s", s) : dc_config_get_keyval_boolean (q.ctx, &b, "%s", s); v.b = b; return st; }
    }
    if (st == DISIR_STATUS_OK) v.s = t ? t : "";
    return st;
}
// a path aimed at the interesting places of the current content
static std::string gen_path (Rng& r, Node& root, const MEl& m, bool hostile, const MEl **leaf)
{
    std::string p;
    const MEl *e = &m;
    Node *n = &root;
    *leaf = nullptr;
    for (int depth = 0; depth < 8; depth++)
    {
        if (!e || e->kids.empty ()) break;
        auto& k = r.pick (e->kids);
        long cnt = 0;
        if (n) nth (*n, k.name, -1, &cnt);
        long i = r.chance (1, 3) ? cnt : cnt ? (long) r.below (cnt) : 0;
        if (r.chance (1, hostile ? 5 : 14)) i = r.pick ({cnt + 1, cnt - 1, 7l, 2147483647l, 0l});
        if (i < 0) i = 0;
        if (!p.empty ()) p += ".";
        p += k.name;
        if (i || r.chance (1, 3)) p += strf ("@%ld", i);
        if (n) n = nth (*n, k.name, i);
        e = &k;
        if (!k.section) { *leaf = &k; if (!(hostile && r.chance (1, 12))) break; e = &m; n = nullptr; continue; }
        if (hostile && r.chance (1, 12)) break;
    }
    if (hostile && r.chance (2, 5))
    {
        static const std::vector<std::string> bits = {".", "@", "@1", "..", "@-1", "@x", "@1x", "@4294967296", "@99999999999999999999", "@0@1", "x", ".x", "@0.", " ", "%s", "%n", "@2147483648", "@18446744073709551616", "@4294967297", "@0x0", "\n", "@."};
        for (int n = (int) r.range (1, 2); n > 0; n--)
        {
            size_t at = r.chance (1, 3) ? p.size () : r.below (p.size () + 1);
            if (r.chance (2, 3)) p.insert (at, r.pick (bits));
            else if (!p.empty ()) p.erase (r.below (p.size ()), 1);
            if (r.chance (1, 10)) p = "";
        }
    }
    if (hostile && r.chance (1, 25))
    {
        // around the internal 2048 byte limit
        size_t want = (size_t) r.pick ({2046, 2047, 2048, 2049, 2100, 5000});
        switch (r.below (3))
        {
        case 0: if (p.size () < want) p += std::string (want - p.size (), 'a'); break;
        case 1: if (p.find ('@') != std::string::npos && p.size () < want) p.insert (p.find ('@') + 1, std::string (want - p.size (), '0')); break;
        default: while (p.size () < want) p += ".aa"; p.resize (want);
        }
    }
    return p;
}

static void query_case (Case& c, bool hostile)
{
    Rng& r = c.r;
    GenOpt o;
    o.strings = r.chance (1, 2) ? 2 : 0;
    o.depth = (int) r.range (1, 5);
    o.width = o.depth > 3 ? 3 : 4;
    o.incl_depr = true;
    o.max_min = o.depth > 3 ? 1 : 2;
    MMold m = gen_mold (r, o);
    // room to grow
    std::function<void (MEl&)> widen = [&] (MEl& e) {
        for (auto& k : e.kids)
        {
            if (r.chance (1, 2))
            {
                k.res.erase (std::remove_if (k.res.begin (), k.res.end (), [] (const MRes& q) { return !q.value (); }), k.res.end ());
                MRes x; x.type = DISIR_RESTRICTION_INC_ENTRY_MIN; x.lo = (double) r.below (2); k.res.push_back (x);
                x.type = DISIR_RESTRICTION_INC_ENTRY_MAX; x.lo = 0; x.hi = r.chance (1, 2) ? 0 : (double) r.range (1, 5); k.res.push_back (x);
            }
            widen (k);
        }
    };
    widen (m);
    m.ver = mold_version (m);
    auto *mold = build_mold (c, m);
    if (!mold) return;
    MConfig mc;
    mc.ver = r.chance (1, 2) ? m.ver : r.pick (breakpoints (m));
    mc.root.section = true;
    bool gen = r.chance (1, 2);
    if (gen) mc.root.kids = expected_content (m, mc.ver);
    else { mc.root = gen_config (r, m, mc.ver, o); mc.root.name = ""; }
    Q q;
    struct disir_context *root = nullptr;
    bool building = r.chance (1, 5);
    if (building)
    {
        auto raw = mc.ver.raw ();
        bool ok = EXPECT_OK (c, dc_config_begin (mold, &root)) && EXPECT_OK (c, dc_set_version (root, &raw));
        for (auto& k : mc.root.kids) ok = ok && build_node (c, root, k);
        if (!ok) { if (root) dc_destroy (&root); disir_mold_finished (&mold); return; }
    }
    else
    {
        q.cfg = build_config (c, mold, mc);
        if (!q.cfg) { disir_mold_finished (&mold); return; }
        root = dc_config_getcontext (q.cfg);
    }
    q.ctx = root;
    c.log ("%sat %s:\n%s", m.mstr ().substr (0, 5000).c_str (), mc.ver.str ().c_str (), mc.root.str ().substr (0, 3000).c_str ());
    std::string hist;
    long accepted = 0, refused = 0;
    auto full = [&] (const char *when) {
        Node got;
        if (!dump_node (c, root, got)) return;
        got.name = mc.root.name;
        if (!(got == mc.root)) c.violation (strf ("content:%s", when), "expected vs found: %s", first_difference (mc.root, got).c_str ());
    };
    for (int n = (int) r.range (4, 22); n > 0 && !c.failed; n--)
    {
        // now and then relative to a section
        Node *base = &mc.root;
        const MEl *be = &m;
        struct disir_context *sec = nullptr;
        if (r.chance (1, 6))
        {
            std::vector<std::pair<Node *, size_t>> ss;
            for (auto& k : mc.root.kids) if (k.section) { size_t i = 0; for (auto& z : mc.root.kids) { if (&z == &k) break; if (z.name == k.name) i++; } ss.push_back ({&k, i}); }
            if (!ss.empty ())
            {
                auto s = r.pick (ss);
                if (EXPECT_OK (c, dc_find_element (root, s.first->name.c_str (), (unsigned) s.second, &sec))) { base = s.first; be = m.find (base->name); q.ctx = sec; q.at_root = false; c.log ("within %s@%zu", base->name.c_str (), s.second); }
            }
        }
        const MEl *leaf = nullptr;
        std::string p = gen_path (r, *base, *be, hostile, &leaf);
        std::vector<Tok> toks;
        auto kind = parse (p, toks);
        bool over = p.size () >= 2048;
        if (kind != AMBIGUOUS || over)
        {
            if (r.chance (2, 3))
            {
                Val x;
                int t = leaf && !(hostile && r.chance (1, 6)) ? leaf->vtype : (int) r.range (1, 5);
                if (leaf && t == leaf->vtype && !(hostile && r.chance (1, 3))) x = gen_accepted (r, *leaf, mc.ver, o);
                else if (!(leaf && t == leaf->vtype && gen_rejected (r, *leaf, mc.ver, o, x))) x = gen_value (r, t, o);
                bool created = false;
                Node before = mc.root;
                std::string why = over ? "over-long" : kind == MALFORMED ? "malformed" : model_set (*base, *be, mc.ver, toks, x, created);
                bool fmt = kind == WELL && !over && toks.size () < 6 && p.find ('%') == std::string::npos && r.chance (1, 6);
                auto st = fmt ? qset_fmt (q, toks, x) : qset (c, q, p, x);
                c.log ("set %s = %s: %s (%s)", p.size () > 300 ? strf ("(%zu bytes)", p.size ()).c_str () : quote (p).c_str (), x.str ().c_str (), sname (st), why.empty () ? "fine" : why.c_str ());
                if (why.empty ())
                {
                    accepted++;
                    c.count ("sets_accepted");
                    if (created) { c.count ("created"); if (toks.size () > 1) c.count ("created_nested"); }
                    if (st != DISIR_STATUS_OK) c.violation ("set:refused", "setting %s = %s returned %s", quote (p).c_str (), x.str ().c_str (), sname (st));
                    Val back;
                    auto g = qget (c, q, p, x.type, back);
                    if (!c.failed && (g != DISIR_STATUS_OK || back != x)) c.violation ("set:readback", "%s was set to %s, reads %s (%s)", quote (p).c_str (), x.str ().c_str (), back.str ().c_str (), sname (g));
                }
                else
                {
                    refused++;
                    c.count ("sets_refused");
                    std::string key = "refused_" + why;
                    for (auto& ch : key) if (ch == ' ' || ch == '-') ch = '_';
                    c.count (key.c_str ());
                    if (st == DISIR_STATUS_OK) c.violation ("set:accepted:" + why, "setting %s = %s returned OK (%s)", quote (p.substr (0, 200)).c_str (), x.str ().c_str (), why.c_str ());
                }
                hist += p.substr (0, 200) + "=" + x.str () + (why.empty () ? "" : "!" + why) + ";";
                if (!c.failed) full (why.empty () ? "after-set" : "after-refusal");
            }
            else
            {
                Node *at = kind == WELL && !over ? resolve (*base, toks) : nullptr;
                int t = at && !at->section && !r.chance (1, 8) ? at->v.type : (int) r.range (1, 5);
                Val v;
                auto st = qget (c, q, p, t, v);
                bool fine = at && !at->section && at->v.type == t;
                c.log ("get %s: %s", quote (p.substr (0, 300)).c_str (), sname (st));
                if (fine)
                {
                    c.count ("gets_found");
                    if (st != DISIR_STATUS_OK || v != at->v) c.violation ("get", "%s reads %s (%s), expected %s", quote (p).c_str (), v.str ().c_str (), sname (st), at->v.str ().c_str ());
                }
                else
                {
                    c.count ("gets_refused");
                    if (st == DISIR_STATUS_OK) c.violation ("get:accepted", "reading %s returned OK", quote (p.substr (0, 200)).c_str ());
                    if (!over && kind == WELL && !at)
                    {
                        // nothing there: not existing, unless the path runs through an entry
                        bool through = false;
                        for (size_t i = 1; i < toks.size (); i++) { std::vector<Tok> pre (toks.begin (), toks.begin () + i); Node *x = resolve (*base, pre); if (x && !x->section) through = true; }
                        if (!through && st != DISIR_STATUS_NOT_EXIST) c.violation ("get:status", "reading %s, which is not there, returned %s", quote (p).c_str (), sname (st));
                    }
                }
                // the part itself
                struct disir_context *h = nullptr;
                auto rs = dc_query_resolve_context (q.ctx, "%s", &h, p.c_str ());
                if ((rs == DISIR_STATUS_OK) != (at != nullptr)) c.violation ("resolve", "resolving %s returned %s, %s", quote (p.substr (0, 200)).c_str (), sname (rs), at ? "it is there" : "it is not there");
                if (rs == DISIR_STATUS_OK)
                {
                    Node got;
                    if (at && dump_node (c, h, got) && !(got == *at)) c.violation ("resolve:other", "%s resolves to another part: %s", quote (p).c_str (), first_difference (*at, got).c_str ());
                    c.count ("resolved");
                    dc_putcontext (&h);
                }
                if (r.chance (1, 4)) full ("after-get");
            }
        }
        if (sec) { dc_putcontext (&sec); q.ctx = root; q.at_root = true; }
    }
    if (!c.failed)
    {
        full ("end");
        if (q.cfg)
        {
            auto st = disir_config_valid (q.cfg, nullptr);
            if (st != DISIR_STATUS_OK) c.violation ("end:valid", "a valid configuration became %s", sname (st));
        }
    }
    if (accepted && refused) c.nontrivial (m.mstr () + mc.ver.str () + hist);
    if (c.no % 501 == 3) c.sample (hist.substr (0, 700));
    if (building) dc_destroy (&root);
    else { dc_putcontext (&root); disir_config_finished (&q.cfg); }
    disir_mold_finished (&mold);
}
long driver_directed () { return 0; }
void driver_setup () {}
