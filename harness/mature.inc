// Molds at other versions, texts altered.
// ---- molds -------------------------------------------------------------------------------------------------
template <class T> static void upto (std::vector<T>& v, Ver at) { v.erase (std::remove_if (v.begin (), v.end (), [&] (const T& x) { return x.intro > at; }), v.end ()); }
static bool trim (MEl& e, Ver at)        // what of it was there at the version; false: nothing
{
    if (e.section && e.intro > at) return false;
    upto (e.docs, at); upto (e.defs, at); upto (e.res, at);
    for (auto& q : e.res) { upto (q.docs, at); if (q.depr > at) q.depr = Ver {0, 0}; }
    if (e.depr > at) e.depr = Ver {0, 0};
    if (!e.section) return !e.defs.empty ();
    std::vector<MEl> kids;
    for (auto& k : e.kids) if (trim (k, at)) kids.push_back (k);
    e.kids.swap (kids);
    return true;
}
static MMold older (const MMold& m, Ver at)
{
    MMold x = m;
    x.intro = Ver {0, 0};
    trim (x, at);
    x.intro = m.intro;
    x.ver = mold_version (x);
    return x;
}
static void renew (Rng& r, MEl& e, Ver at, const GenOpt& o)
{
    for (auto& k : e.kids)
    {
        if (k.section) { renew (r, k, at, o); continue; }
        if (r.chance (1, 2)) continue;
        Val d = active_default (k, &at)->v;
        if (r.chance (1, 2)) { d = gen_accepted (r, k, at, o); k.defs.push_back ({at, d}); }
        bool bound = false;
        for (auto& q : k.res) bound = bound || q.value ();
        if (!bound && k.vtype == DISIR_VALUE_TYPE_INTEGER && d.i > -1000000000 && d.i < 1000000000)
        {
            MRes q;
            q.type = DISIR_RESTRICTION_EXC_VALUE_RANGE; q.intro = at; q.lo = (double) d.i - 1; q.hi = (double) d.i + 1;
            k.res.push_back (q);
        }
    }
}
static enum disir_status read_text (PluginKind kind, struct disir_instance *in, const std::string& text, struct disir_mold *m, struct disir_config **out)
{
    Mem f (text);
    *out = nullptr;
    return (kind == JSON_PLUGIN ? dio_json_config_fd_read : dio_toml_unserialize_config) (in, f.f, m, out);
}
static std::string garble (Rng& r, PluginKind kind, std::string t, bool syntax)
{
    if (syntax || t.size () < 8) return r.pick ({std::string (""), t.substr (0, t.size () / 2), std::string ("\x01\x02 not a config"), t + "}]= 4"});
    // an element no mold has
    if (kind == TOML_PLUGIN) return t.find ("zz_unheard_of") == std::string::npos ? "zz_unheard_of = 1\n" + t : t;
    auto at = t.find ("\"config\"");
    at = at == std::string::npos ? at : t.find ('{', at);
    if (at == std::string::npos) return t;
    auto next = t.find_first_not_of (" \n\t", at + 1);
    return t.substr (0, at + 1) + "\"zz_unheard_of\": 1" + (next != std::string::npos && t[next] == '}' ? "" : ",") + t.substr (at + 1);
}
static bool in_mold (const MMold& m, const MConfig& x)
{
    std::set<std::string> bad;
    if (x.ver > m.ver) return false;
    invalid_parts (m, x.ver, x.root, "", bad);
    return bad.empty ();
}
