// C19: whatever text is offered as configuration or mold is refused cleanly or read as what it says.
#include "store.inc"
#include "interpret.inc"
const char *PROPERTY = "C19";
const char *RULE = "one text offered to one reader; distinct by the text; non-trivial: not empty";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"json_config", 5000}, {"toml_config", 5000}, {"json_mold", 5000}, {"override", 2500}, {"judged_valid", 3000}, {"judged_invalid", 4000}, {"refused", 5000}, {"invalid_objects", 3500}, {"truncated", 2000}, {"toml_judged_valid", 1200}, {"toml_judged_invalid", 1200}};
long driver_directed () { return 24; }
void driver_setup () {}

static Node sorted_node (const Node& n)
{
    Node r = n;
    for (auto& k : r.kids) k = sorted_node (k);
    std::stable_sort (r.kids.begin (), r.kids.end (), [] (const Node& a, const Node& b) { return a.name < b.name; });
    return r;
}
enum Expect { UNJUDGED, VALID, NOT_VALID };
struct World { Case& c; Inst in; MMold m; struct disir_mold *mold = nullptr; explicit World (Case& x) : c (x) {} };

template <class T> static bool consistent (World& w, const char *how, enum disir_status st, T *obj, const std::string& text)
{
    Case& c = w.c;
    auto q = [&] { return quote (text.size () > 1500 ? text.substr (0, 1500) : text); };
    bool has = st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_CONTEXT;
    if (has && !obj) { c.violation (strf ("%s:no-object", how), "returned %s without an object; text %s", sname (st), q ().c_str ()); return false; }
    if (!has && obj) { c.violation (strf ("%s:object", how), "returned %s and an object; text %s", sname (st), q ().c_str ()); return false; }
    if (!has)
    {
        c.count ("refused");
        if (w.in.error ().empty ()) c.violation (strf ("%s:silent", how), "refused with %s without an error text; text %s", sname (st), q ().c_str ());
    }
    if (st == DISIR_STATUS_INVALID_CONTEXT) c.count ("invalid_objects");
    return has;
}
static enum disir_status verdict (struct disir_config *o, struct disir_collection **col) { return disir_config_valid (o, col); }
static enum disir_status verdict (struct disir_mold *o, struct disir_collection **col) { return disir_mold_valid (o, col); }
template <class T> static void judge (World& w, const char *how, enum disir_status st, T *obj, const std::string& text, Expect ex, const std::string& why)
{
    Case& c = w.c;
    auto q = [&] { return quote (text.size () > 1500 ? text.substr (0, 1500) : text); };
    if (obj)
    {
        struct disir_collection *col = nullptr;
        auto v = verdict (obj, &col);
        int n = 0;
        if (col) { for (auto *h : collect (col)) { dc_putcontext (&h); n++; } dc_collection_finished (&col); }
        if (v != st) c.violation (strf ("%s:verdict", how), "read with %s, but the object says %s; text %s", sname (st), sname (v), q ().c_str ());
        else if ((v == DISIR_STATUS_OK) != (n == 0)) c.violation (strf ("%s:listing", how), "verdict %s with %d parts listed as invalid; text %s", sname (v), n, q ().c_str ());
    }
    if (ex == VALID && st != DISIR_STATUS_OK) c.violation (strf ("%s:refused", how), "a correct document returned %s: %s; text %s", sname (st), w.in.error ().c_str (), q ().c_str ());
    if (ex == NOT_VALID && st == DISIR_STATUS_OK) c.violation (strf ("%s:accepted", how), "read as valid in spite of %s; text %s", why.c_str (), q ().c_str ());
    if (ex == VALID) c.count ("judged_valid");
    if (ex == NOT_VALID) c.count ("judged_invalid");
}
// a configuration read as valid obeys the mold, and says what the text says
static void config_text (World& w, PluginKind kind, const std::string& text, const MConfig *says, Expect ex, const std::string& why)
{
    Case& c = w.c;
    const char *how = kind == JSON_PLUGIN ? "json-config" : "toml-config";
    c.count (kind == JSON_PLUGIN ? "json_config" : "toml_config");
    c.log ("%s %s", how, quote (text).c_str ());
    Mem f (text);
    struct disir_config *cfg = nullptr;
    disir_error_clear (w.in.p);
    auto st = kind == JSON_PLUGIN ? dio_json_unserialize_config (w.in.p, f.f, w.mold, &cfg) : dio_toml_unserialize_config (w.in.p, f.f, w.mold, &cfg);
    if (!text.empty ()) c.nontrivial (how + text);
    if (consistent (w, how, st, cfg, text))
    {
        judge (w, how, st, cfg, text, ex, why);
        MConfig got;
        if (st == DISIR_STATUS_OK && !c.failed && dump_config (c, cfg, got))
        {
            std::set<std::string> bad;
            invalid_parts (w.m, got.ver, got.root, "", bad, true);
            if (!bad.empty () || got.ver > w.m.ver) c.violation (strf ("%s:rules", how), "read as valid, but breaks the rules at %s; text %s", bad.empty () ? "version" : bad.begin ()->c_str (), quote (text).c_str ());
            if (says && ex == VALID && !(got.ver == says->ver && sorted_node (got.root) == sorted_node (says->root)))
                c.violation (strf ("%s:content", how), "says %s, read as something else: %s; text %s", says->ver.str ().c_str (), first_difference (sorted_node (says->root), sorted_node (got.root)).c_str (), quote (text).c_str ());
        }
    }
    else judge (w, how, st, cfg, text, ex, why);
    if (cfg) disir_config_finished (&cfg);
}
static void json_config (World& w, const std::string& text)
{
    JV v;
    Reading rd;
    if (!jv_parse (text, v)) { config_text (w, JSON_PLUGIN, text, nullptr, UNJUDGED, ""); return; }
    if (v.t != JV::OBJ) { config_text (w, JSON_PLUGIN, text, nullptr, NOT_VALID, "no object"); return; }
    auto says = read_config (v, w.m, rd);
    config_text (w, JSON_PLUGIN, text, &says, rd.fault ? NOT_VALID : rd.odd ? UNJUDGED : VALID, rd.why);
}
static const Ver LAST {4000000000u, 0};
static void sound (Case& c, const MEl& e, const std::string& text)
{
    for (auto& k : e.kids)
    {
        if (!legal_name (k.name)) c.violation ("json-mold:name", "a valid mold with an element named %s; text %s", quote (k.name).c_str (), quote (text).c_str ());
        if (!k.section && k.defs.empty ()) c.violation ("json-mold:default", "a valid mold with %s lacking a default; text %s", k.name.c_str (), quote (text).c_str ());
        for (size_t i = 1; i < k.defs.size (); i++) if (!(k.defs[i - 1].intro < k.defs[i].intro)) c.violation ("json-mold:defaults", "defaults of %s out of order", k.name.c_str ());
        sound (c, k, text);
    }
}
static void zero (MEl& e) { for (auto& r : e.res) { r.lo += 0.0; r.hi += 0.0; } for (auto& k : e.kids) zero (k); }
// a mold that demands very many instances is read, but no configuration is made of it
static bool demanding (const MEl& e) { for (auto& r : e.res) if (r.type == DISIR_RESTRICTION_INC_ENTRY_MIN && r.lo > 50) return true; for (auto& k : e.kids) if (demanding (k)) return true; return false; }
static void json_mold (World& w, const std::string& text)
{
    Case& c = w.c;
    JV v;
    Reading rd;
    Expect ex = UNJUDGED;
    MMold says;
    if (jv_parse (text, v)) { says = read_mold (v, rd); ex = rd.fault ? NOT_VALID : rd.odd ? UNJUDGED : VALID; }
    c.count ("json_mold");
    c.log ("json-mold %s", quote (text).c_str ());
    Mem f (text);
    struct disir_mold *mold = nullptr;
    disir_error_clear (w.in.p);
    auto st = dio_json_unserialize_mold (w.in.p, f.f, &mold);
    if (!text.empty ()) c.nontrivial ("mold" + text);
    if (consistent (w, "json-mold", st, mold, text))
    {
        judge (w, "json-mold", st, mold, text, ex, rd.why);
        if (st == DISIR_STATUS_OK && !c.failed)
        {
            MMold got;
            if (dump_mold (c, mold, got, {Ver {0, 0}, LAST}))
            {
                zero (got);
                sound (c, got, text);
                if (ex == VALID)
                {
                    auto d = first_difference (says, got);
                    if (got.ver != says.ver) d = "version " + says.ver.str () + " vs " + got.ver.str ();
                    if (!d.empty ()) c.violation ("json-mold:content", "read as something else than it says: %s; text %s", d.c_str (), quote (text).c_str ());
                }
            }
            // what was read can be used
            struct disir_config *g = nullptr;
            enum disir_status s = DISIR_STATUS_OK;
            if (!demanding (got)) s = disir_generate_config_from_mold (mold, nullptr, &g);
            if (ex == VALID && s != DISIR_STATUS_OK) c.violation ("json-mold:unusable", "no configuration can be generated from a valid mold: %s; text %s", sname (s), quote (text).c_str ());
            if (g) disir_config_finished (&g);
            Mem h;
            dio_json_serialize_mold (w.in.p, mold, h.f);
        }
    }
    else judge (w, "json-mold", st, mold, text, ex, rd.why);
    if (mold) disir_mold_finished (&mold);
}
static void json_override (World& w, const std::string& moldtext, const std::string& text)
{
    Case& c = w.c;
    c.count ("override");
    c.log ("override %s", quote (text).c_str ());
    std::string mf = scratch_dir () + "/m.json", of = scratch_dir () + "/o.json";
    spill (mf, moldtext);
    spill (of, text);
    struct disir_mold *mold = nullptr;
    disir_error_clear (w.in.p);
    auto st = dio_json_unserialize_mold_filepath (w.in.p, mf.c_str (), of.c_str (), &mold);
    if (!text.empty ()) c.nontrivial ("override" + text);
    if (consistent (w, "override", st, mold, text)) judge (w, "override", st, mold, text, UNJUDGED, "");
    if (mold) disir_mold_finished (&mold);
}
// ---- TOML written by the harness, in its own style, with or without a fault ------------------------------
struct Toml
{
    Rng& r; std::string o; bool crlf;
    explicit Toml (Rng& x) : r (x), crlf (x.chance (1, 6)) {}
    std::string nl () { std::string s; if (r.chance (1, 10)) s += " # note [x] = \"y\""; s += crlf ? "\r\n" : "\n"; if (r.chance (1, 10)) s += "# full line" + std::string (crlf ? "\r\n" : "\n"); if (r.chance (1, 10)) s += crlf ? "\r\n" : "\n"; return s; }
    std::string sp () { return r.chance (1, 3) ? "  " : r.chance (1, 3) ? "\t" : " "; }
    std::string key (const std::string& k) { return r.chance (1, 6) ? "\"" + k + "\"" : k; }
    std::string str (const std::string& s)
    {
        bool plain = true;
        for (unsigned char c : s) if (c < 32 || c == '\'' || c == 127) plain = false;
        if (plain && r.chance (1, 4)) return "'" + s + "'";
        std::string t = "\"";
        for (unsigned char c : s)
            switch (c)
            {
            case '"': t += "\\\""; break; case '\\': t += "\\\\"; break; case '\n': t += "\\n"; break; case '\r': t += "\\r"; break; case '\t': t += "\\t"; break;
            default: if (c < 32 || c == 127) t += strf ("\\u%04x", c); else if (c < 128 && r.chance (1, 50)) t += strf ("\\u%04X", c); else t += (char) c;
            }
        return t + "\"";
    }
    std::string val (const Val& v)
    {
        switch (v.type)
        {
        case DISIR_VALUE_TYPE_INTEGER: return strf (v.i >= 0 && r.chance (1, 10) ? "+%lld" : "%lld", (long long) v.i);
        case DISIR_VALUE_TYPE_FLOAT:
        {
            auto s = strf (r.chance (1, 3) ? "%.17e" : "%.17g", v.d);
            if (s.find_first_of (".e") == std::string::npos) s += r.chance (1, 2) ? ".0" : "e0";
            if (s.find ('e') != std::string::npos && s.find ('.') == std::string::npos) s.insert (s.find ('e'), ".0");
            return s;
        }
        case DISIR_VALUE_TYPE_BOOLEAN: return v.b ? "true" : "false";
        default: return str (v.s);
        }
    }
    void table (const Node& n, const std::string& path)
    {
        std::map<std::string, std::vector<const Node *>> g;
        std::vector<std::string> names;
        for (auto& k : n.kids) { if (!g.count (k.name)) names.push_back (k.name); g[k.name].push_back (&k); }
        for (size_t i = 1; i < names.size (); i++) std::swap (names[i], names[r.below (i + 1)]);
        for (auto& nm : names)
        {
            auto& v = g[nm];
            if (v[0]->section) continue;
            o += key (nm) + sp () + "=" + sp ();
            if (v.size () == 1 && !r.chance (1, 8)) o += val (v[0]->v);
            else
            {
                o += "[";
                for (size_t i = 0; i < v.size (); i++) { if (i) o += "," + sp (); if (r.chance (1, 8)) o += crlf ? "\r\n" : "\n"; o += val (v[i]->v); }
                if (r.chance (1, 8)) o += ",";
                o += "]";
            }
            o += nl ();
        }
        for (auto& nm : names)
        {
            auto& v = g[nm];
            if (!v[0]->section) continue;
            std::string p = path.empty () ? key (nm) : path + "." + key (nm);
            bool arr = v.size () > 1 || r.chance (1, 6);
            for (auto *s : v) { o += (arr ? "[[" : "[") + p + (arr ? "]]" : "]") + nl (); table (*s, p); }
        }
    }
    static std::string text (Rng& r, const std::string& version, const Node& root)
    {
        Toml t (r);
        if (!version.empty ()) t.o += "\"@DISIR_CONFIG_VERSION\" = " + version + t.nl ();
        t.table (root, "");
        return t.o;
    }
};
static std::vector<Node *> all_nodes (Node& n) { std::vector<Node *> o; for (auto& k : n.kids) { o.push_back (&k); for (auto *x : all_nodes (k)) o.push_back (x); } return o; }
static void toml_case (World& w, const GenOpt& o)
{
    Rng& r = w.c.r;
    auto vs = breakpoints (w.m);
    for (int k = 0; k < 5 && !w.c.failed; k++)
    {
        MConfig cfg;
        cfg.ver = r.chance (1, 2) ? w.m.ver : r.pick (vs);
        cfg.root = gen_config (r, w.m, cfg.ver, o);
        cfg.root.section = true;
        std::string version = "\"" + cfg.ver.str () + "\"";
        if (k < 2)
        {
            auto t = Toml::text (r, version, cfg.root);
            config_text (w, TOML_PLUGIN, t, &cfg, VALID, "");
            w.c.count ("toml_judged_valid");
            if (k == 0) for (int i = 0; i < 4 && !w.c.failed; i++) config_text (w, TOML_PLUGIN, text_mutate (t, r), nullptr, UNJUDGED, "");
            if (k == 1) { auto u = t.substr (0, r.below (t.size () + 1)); w.c.count ("truncated"); config_text (w, TOML_PLUGIN, u, nullptr, UNJUDGED, ""); }
            continue;
        }
        // with a fault
        std::string why, text;
        Node root = cfg.root;
        auto ns = all_nodes (root);
        switch (r.below (7))
        {
        case 0: { static const char *bad[] = {"\"\"", "\"x\"", "1", "1.0", "true", "\"-1.0\"", "\"1\"", "[\"1.0\"]", "\"1.x\"", "\"4294967296.0\""}; version = bad[r.below (10)]; why = "version " + version; break; }
        case 1: version = strf ("\"%u.%u\"", w.m.ver.a, w.m.ver.b + 1); why = "version above the mold's"; break;
        case 2: { Node n; n.name = "qq_unknown"; n.v = gen_value (r, (int) r.range (1, 4), o); n.v.type = n.v.type == DISIR_VALUE_TYPE_ENUM ? DISIR_VALUE_TYPE_STRING : n.v.type; n.section = r.chance (1, 3); std::vector<Node *> secs {&root}; for (auto *x : ns) if (x->section) secs.push_back (x); secs[r.below (secs.size ())]->kids.push_back (n); why = "an unknown element"; break; }
        case 3: case 4:
        {
            if (ns.empty ()) break;
            Node *n = ns[r.below (ns.size ())];
            // instances of one name share one array, so all of them change
            if (n->section) break;
            int t;
            do t = (int) r.range (1, 4); while (t == n->v.type || (n->v.type == DISIR_VALUE_TYPE_ENUM && t == DISIR_VALUE_TYPE_STRING));
            auto name = n->name;
            for (auto *x : ns) if (!x->section && x->name == name && x->v.type == n->v.type && x != n) x->v = gen_value (r, t, o);
            n->v = gen_value (r, t, o);
            why = "a value of another type for " + name;
            break;
        }
        case 5:
        {
            std::vector<std::pair<Node *, const MEl *>> ks;
            std::function<void (Node&, const MEl&)> walk = [&] (Node& x, const MEl& e) { for (auto& y : x.kids) { const MEl *f = e.find (y.name); if (!f) continue; if (y.section) walk (y, *f); else ks.push_back ({&y, f}); } };
            walk (root, w.m);
            if (ks.empty ()) break;
            auto p = ks[r.below (ks.size ())];
            Val v;
            if (!gen_rejected (r, *p.second, cfg.ver, o, v)) break;
            p.first->v = v;
            why = "a restricted value for " + p.first->name;
            break;
        }
        case 6:
        {
            // one instance too few or too many
            if (root.kids.empty ()) break;
            size_t i = r.below (root.kids.size ());
            if (r.chance (1, 2)) root.kids.erase (root.kids.begin () + i); else { Node n = root.kids[i]; root.kids.push_back (n); }
            std::set<std::string> bad;
            invalid_parts (w.m, cfg.ver, root, "", bad, true);
            if (!bad.empty ()) why = "occurrences of an element";
            break;
        }
        }
        if (why.empty ()) continue;
        text = Toml::text (r, version, root);
        config_text (w, TOML_PLUGIN, text, nullptr, NOT_VALID, why);
        w.c.count ("toml_judged_invalid");
    }
}
static const char *DIRECTED_MOLD = "{\"mold\":{\"a\":{\"type\":\"INTEGER\",\"defaults\":[{\"value\":1}]},\"s\":{\"elements\":{\"b\":{\"type\":\"STRING\",\"defaults\":[{\"value\":\"x\",\"introduced\":\"1.0\"}],\"restrictions\":[{\"type\":\"MAXIMUM_ENTRIES\",\"value\":0,\"introduced\":\"1.0\"}]}},\"restrictions\":[{\"type\":\"MAXIMUM_ENTRIES\",\"value\":5}]}}}";
static std::string rep (const std::string& s, size_t n) { std::string o; while (n-- > 0) o += s; return o; }
static void directed (World& w, long k)
{
    static const size_t deep[] = {40, 120, 1001, 5000, 200000};
    auto t3 = [&] (const std::string& s) { json_config (w, s); json_mold (w, s); json_override (w, DIRECTED_MOLD, s); config_text (w, TOML_PLUGIN, s, nullptr, UNJUDGED, ""); };
    if (k < 5)
    {
        size_t d = deep[k];
        t3 (rep ("[", d)); t3 (rep ("[", d) + rep ("]", d)); t3 (rep ("{\"a\":", d)); t3 (rep ("{\"a\":", d) + "1" + rep ("}", d));
        t3 (rep ("[a.", d)); t3 ("[" + rep ("a.", d) + "a]\n"); t3 (rep ("a={", d)); t3 ("a=" + rep ("[", d) + rep ("]", d)); t3 (rep ("/*", d)); t3 (rep ("//\n", d));
        t3 ("{\"mold\":" + rep ("{\"s\":{\"elements\":", d) + "{}" + rep ("}}", d) + "}");
        t3 ("{\"version\":\"1.0\",\"config\":" + rep ("{\"s\":", d) + "1" + rep ("}", d) + "}");
        t3 (rep ("s={", d) + rep ("}", d));
        return;
    }
    switch (k)
    {
    case 5: for (auto s : {"", " ", "\n", "{", "}", "[", "]", "null", "true", "0", "\"x\"", "{}", "[]", "{\"\":1}", "\xef\xbb\xbf{}", "=", "a", "a=", "=1", "[]", "[[]]", "[a", "[a]x", "a=1 b=2", "a=1\na=2", "[a]\n[a]", "[a]\nb=1\n[a.b]\nc=1"}) t3 (s); t3 (std::string (1, '\0')); t3 (std::string ("a=\"\0\"", 6)); t3 (std::string ("{\"config\":{\"a\":\"\0\"}}", 20)); break;
    case 6: t3 ("{\"version\":\"1.0\",\"config\":{\"a\":" + rep ("9", 100000) + "}}"); t3 ("a = " + rep ("9", 100000)); t3 ("a = 0." + rep ("1", 100000)); t3 ("a = 1e" + rep ("9", 1000)); t3 ("{\"version\":\"1.0\",\"config\":{\"a\":1e" + rep ("9", 1000) + "}}"); break;
    case 7: t3 ("{\"version\":\"" + rep ("1", 10000) + ".0\",\"config\":{}}"); t3 ("\"@DISIR_CONFIG_VERSION\" = \"" + rep ("1", 10000) + ".0\""); t3 ("{\"mold\":{\"" + rep ("n", 100000) + "\":{\"type\":\"INTEGER\",\"defaults\":[{\"value\":1}]}}}"); t3 (rep ("k", 100000) + " = 1\n"); break;
    case 8: t3 ("{\"version\":\"1.0\",\"config\":{\"a\":" + std::string ("[") + rep ("1,", 3000) + "1]}}"); t3 ("a = [" + rep ("1,", 3000) + "1]"); t3 (rep ("[[s]]\nb=\"x\"\n", 300)); break;
    case 9: t3 ("a = 1979-05-27T07:32:00Z"); t3 ("a = 9999-99-99T99:99:99Z"); t3 ("a = 1979-05-27"); t3 ("a = 07:32:00"); t3 ("a = 0x7f"); t3 ("a = 1_000"); t3 ("a = 00"); t3 ("a = -"); t3 ("a = +"); t3 ("a = ."); t3 ("a = 1."); t3 ("a = .5"); t3 ("a = 1e"); t3 ("a = nan"); t3 ("a = inf"); break;
    case 10: t3 ("a = \"\"\"x\ny\"\"\""); t3 ("a = '''x\ny'''"); t3 ("a = \"\"\"x"); t3 ("a = '''x"); t3 ("a = \"x"); t3 ("a = 'x"); t3 ("a = \"\\"); t3 ("a = \"\\u12\""); t3 ("a = \"\\uD800\""); t3 ("a = \"\\U00110000\""); t3 ("a = \"\\UFFFFFFFF\""); t3 ("a = \"\\x\""); t3 ("\"a"); t3 ("\"a\\"); break;
    case 11: t3 ("[s]\nb = \"x\"\n[s.b]\nc = 1"); t3 ("s = 1\n[s]\n"); t3 ("s = [1]\n[[s]]\n"); t3 ("[[s]]\n[s]\n"); t3 ("[s]\n[[s]]\n"); t3 ("s = {b=1}\n[s]\nc=1"); t3 ("[s.s.s]\n[s]\n[s.s]\n"); t3 ("a = [1, \"x\"]"); t3 ("a = [[1],[\"x\"]]"); t3 ("a = [{b=1},{b=2}]"); t3 ("a = [,]"); t3 ("a = [1,,2]"); t3 ("[ a . b ]\n"); t3 ("[a..b]"); t3 ("[.a]"); t3 ("[a.]"); break;
    case 12: for (auto s : {"{\"sync\":[],\"override\":{}}", "{\"sync\":{},\"override\":{}}", "{\"sync\":[1],\"override\":{}}", "{\"sync\":[{\"namespace\":\"1.0\",\"override\":\"1.0\"}],\"override\":{\"a\":1}}", "{\"sync\":[{\"namespace\":\"x\",\"override\":\"y\"}],\"override\":{\"a\":{\"value\":1,\"version\":\"y\"}}}", "{\"override\":{\"a\":{\"value\":1,\"version\":\"1.0\"}}}", "{\"sync\":null,\"override\":null}", "{\"sync\":[null],\"override\":{\"a\":[1]}}", "{\"sync\":[{\"namespace\":\"1.0\",\"override\":\"1.0\"}],\"override\":{\"s\":{\"value\":1,\"version\":\"1.0\"}}}", "{\"sync\":[{\"namespace\":\"1.0\",\"override\":\"1.0\"}],\"override\":{\"s.b.c\":{\"value\":1,\"version\":\"1.0\"},\"..\":{\"value\":1,\"version\":\"1.0\"},\"\":{\"value\":1,\"version\":\"1.0\"},\"a@3\":{\"value\":1,\"version\":\"1.0\"}}}", "[1]", "3", "\"x\"", "null"}) json_override (w, DIRECTED_MOLD, s); break;
    case 13: for (auto s : {"{\"mold\":{\"a\":{\"type\":\"INTEGER\",\"defaults\":[{\"value\":1},{\"value\":2}]}}}", "{\"mold\":{\"a\":{\"type\":\"INTEGER\",\"defaults\":[{\"value\":1,\"introduced\":\"bad\"}]}}}", "{\"documentation\":4,\"mold\":{}}", "{\"documentation\":\"\",\"mold\":{}}", "{\"mold\":{}}", "{\"mold\":{\"s\":{\"elements\":{}}}}", "{\"mold\":{\"s\":{\"elements\":[]}}}", "{\"mold\":{\"s\":{\"elements\":{},\"introduced\":\"0.x\"}}}", "{\"mold\":{\"a\":{\"type\":\"ENUM\",\"defaults\":[{\"value\":\"x\"}]}}}", "{\"mold\":{\"a\":{\"type\":\"INTEGER\",\"defaults\":[{\"value\":1}],\"restrictions\":[{\"type\":\"RANGE\",\"value\":[1]}]}}}", "{\"mold\":{\"a\":{\"type\":\"INTEGER\",\"defaults\":[{\"value\":1}],\"restrictions\":[{\"type\":\"MINIMUM_ENTRIES\",\"value\":99999999999}]}}}"}) json_mold (w, s); break;
    default:
    {
        // every prefix of a sample
        static const char *base = "{\"documentation\":\"d\\u00e6\",\"mold\":{\"a\":{\"type\":\"INTEGER\",\"deprecated\":\"2.0\",\"defaults\":[{\"value\":1,\"introduced\":\"1.0\"}],\"restrictions\":[{\"type\":\"RANGE\",\"value\":[-1.5,10],\"introduced\":\"1.0\",\"documentation\":\"q\"}]},\"s\":{\"elements\":{\"b\":{\"type\":\"STRING\",\"defaults\":[{\"value\":\"x\"}]}}}}}";
        static const char *conf = "{\"version\":\"1.0\",\"config\":{\"a\":1,\"s\":{\"b\":[\"x\",\"y\\n\"]}}}";
        static const char *toml = "\"@DISIR_CONFIG_VERSION\" = \"1.0\"\na = 1 # c\n[s]\nb = [ \"x\", 'y' ]\n[[s.t]]\nf = 1.5e3\n[[s.t]]\ng=true\n";
        static const char *over = "{\"sync\":[{\"namespace\":\"1.0\",\"override\":\"1.3\"}],\"override\":{\"a\":{\"version\":\"1.3\",\"value\":7},\"s.b\":[{\"version\":\"1.3\",\"value\":\"q\"}]}}";
        std::string b = base, cf = conf, tm = toml, ov = over;
        size_t step = 10;
        for (size_t i = (size_t) (k - 14); i <= b.size (); i += step) { json_mold (w, b.substr (0, i)); w.c.count ("truncated"); }
        for (size_t i = (size_t) (k - 14); i <= cf.size (); i += step) { json_config (w, cf.substr (0, i)); w.c.count ("truncated"); }
        for (size_t i = (size_t) (k - 14); i <= tm.size (); i += step) { config_text (w, TOML_PLUGIN, tm.substr (0, i), nullptr, UNJUDGED, ""); w.c.count ("truncated"); }
        for (size_t i = (size_t) (k - 14); i <= ov.size (); i += step) { json_override (w, DIRECTED_MOLD, ov.substr (0, i)); w.c.count ("truncated"); }
    }
    }
}
static std::string override_text (World& w, Rng& r, const GenOpt& o)
{
    JV root = JV::O (), sync = JV::A (), ov = JV::O ();
    auto vs = breakpoints (w.m);
    int n = (int) r.range (1, 4);
    for (int i = 0; i < n; i++) { JV s = JV::O (); s.set ("namespace", JV::S (r.pick (vs).str ())); s.set ("override", JV::S (strf ("1.%d", i))); sync.a.push_back (s); }
    std::function<void (const MEl&, std::string)> walk = [&] (const MEl& e, std::string pre)
    {
        for (auto& k : e.kids)
        {
            auto p = pre.empty () ? k.name : pre + "." + k.name;
            if (k.section) { walk (k, p); continue; }
            if (!r.chance (1, 2)) continue;
            auto one = [&] { JV x = JV::O (); x.set ("version", JV::S (strf ("1.%d", (int) r.below (n)))); auto v = gen_accepted (r, k, w.m.ver, o); x.set ("value", v.type == DISIR_VALUE_TYPE_INTEGER ? JV::N (strf ("%lld", (long long) v.i)) : v.type == DISIR_VALUE_TYPE_FLOAT ? JV::N (strf ("%.17g", v.d)) : v.type == DISIR_VALUE_TYPE_BOOLEAN ? JV::B (v.b) : JV::S (v.s)); return x; };
            if (r.chance (1, 2)) ov.set (p, one ());
            else { JV a = JV::A (); for (auto m = r.range (1, 3); m-- > 0;) a.a.push_back (one ()); ov.set (p, a); }
        }
    };
    walk (w.m, "");
    root.set ("sync", sync).set ("override", ov);
    for (auto k = r.below (3); k-- > 0;) jv_mutate (root, r);
    std::string t;
    jv_text (t, root, r.chance (1, 2) ? &r : nullptr);
    return t;
}
void driver_case (Case& c)
{
    Rng& r = c.r;
    World w (c);
    if (!w.in.make (c)) return;
    if (c.no < driver_directed ())
    {
        Mem f (DIRECTED_MOLD);
        JV v;
        Reading rd;
        if (EXPECT_OK (c, dio_json_unserialize_mold (w.in.p, f.f, &w.mold)) && jv_parse (DIRECTED_MOLD, v))
        {
            w.m = read_mold (v, rd);
            directed (w, c.no);
            disir_mold_finished (&w.mold);
        }
        w.in.done (c);
        return;
    }
    GenOpt o;
    o.strings = (int) r.below (3);
    o.control_chars = r.chance (1, 2);
    o.depth = (int) r.range (1, 3);
    o.width = (int) r.range (1, 4);
    o.max_min = 2;
    w.m = gen_mold (r, o);
    w.mold = build_mold (c, w.m);
    if (w.mold)
    {
        std::string mt, ct;
        { Mem f; EXPECT_OK (c, dio_json_serialize_mold (w.in.p, w.mold, f.f)); mt = f.text (); }
        auto vs = breakpoints (w.m);
        MConfig cfg;
        cfg.ver = r.chance (1, 2) ? w.m.ver : r.pick (vs);
        cfg.root = gen_config (r, w.m, cfg.ver, o);
        cfg.root.section = true;
        if (auto *k = build_config (c, w.mold, cfg)) { Mem f; EXPECT_OK (c, dio_json_serialize_config (w.in.p, k, f.f)); ct = f.text (); disir_config_finished (&k); }
        JV cj, mj;
        if (!jv_parse (ct, cj) || !jv_parse (mt, mj)) c.violation ("strict", "the library writes JSON that is not strict: %s %s", quote (ct).c_str (), quote (mt).c_str ());
        for (int i = 0; i < 8 && !c.failed; i++)
        {
            std::string t;
            JV x = cj;
            for (auto k = r.below (4); k-- > 0;) jv_mutate (x, r);
            // a version next to the mold's
            if (r.chance (1, 8) && x.t == JV::OBJ)
            {
                Ver v = w.m.ver;
                switch (r.below (4)) { case 0: v.b++; break; case 1: v.a++; v.b = 0; break; case 2: if (v.b) v.b--; break; case 3: v.b += 1 + (uint32_t) r.below (20); break; }
                x.set ("version", JV::S (v.str ()));
                c.count ("versions_next");
            }
            jv_text (t, x, &r);
            json_config (w, r.chance (1, 3) ? text_mutate (t, r) : t);
        }
        for (int i = 0; i < 8 && !c.failed; i++)
        {
            std::string t;
            JV x = mj;
            for (auto k = r.below (4); k-- > 0;) jv_mutate (x, r);
            jv_text (t, x, &r);
            json_mold (w, r.chance (1, 3) ? text_mutate (t, r) : t);
        }
        if (!c.failed) { json_config (w, ct.substr (0, r.below (ct.size () + 1))); json_mold (w, mt.substr (0, r.below (mt.size () + 1))); c.count ("truncated", 2); }
        for (int i = 0; i < 4 && !c.failed; i++)
        {
            auto t = override_text (w, r, o);
            json_override (w, r.chance (1, 10) ? text_mutate (mt, r) : mt, r.chance (1, 3) ? text_mutate (t, r) : t);
        }
        if (!c.failed) toml_case (w, o);
        if (c.no % 307 == 30) c.sample ("configuration " + ct.substr (0, 300) + "\nmold " + mt.substr (0, 500));
        disir_mold_finished (&w.mold);
    }
    w.in.done (c);
}
