// C15: updates of configurations to newer mold versions against an independent merge.
#include "dis.hh"
const char *PROPERTY = "C15";
const char *RULE = "one customised configuration updated between two versions of a mold with one set of conflict resolutions; distinct by mold, content and versions; non-trivial: an entry kept a customised value or took a new default";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"updates", 5000}, {"kept_custom", 3000}, {"new_default", 1000}, {"conflicts", 1000}, {"conflict_restricted", 100}, {"in_sections", 2000}, {"repeated_instances", 1000}, {"surplus_dropped", 200},
    {"created_by_target", 300}, {"resolve_config", 200}, {"resolve_mold", 200}, {"resolve_other", 100}, {"resolve_refused", 100}, {"abandoned", 100}, {"not_newer", 500}, {"too_new", 300}, {"long_values", 8}};
long driver_directed () { return 0; }
void driver_setup () {}

static std::string text_of (const Val& v)
{
    switch (v.type)
    {
    case DISIR_VALUE_TYPE_INTEGER: return strf ("%lld", (long long) v.i);
    case DISIR_VALUE_TYPE_FLOAT: return strf ("%f", v.d);
    case DISIR_VALUE_TYPE_BOOLEAN: return v.b ? "True" : "False";
    }
    return v.s;
}
static bool eq (const Val& a, const Val& b) { return a.type == DISIR_VALUE_TYPE_FLOAT && b.type == a.type ? a.d == b.d : a == b; }

struct Want { Val conf, mold; const MEl *e; bool optional; Val chosen; bool done = false; Node *at = nullptr; };
struct Merge
{
    Case& c;
    Ver from, to;
    std::map<std::string, Want> conflicts;      // by full name in the old configuration
    bool interesting = false;
};
// the content after the update; entries in conflict are marked and filled in when resolved
static void merge (Merge& m, const MEl& e, const Node& old, Node& out, const std::string& pre, int depth)
{
    Case& c = m.c;
    size_t total = 0;
    for (auto& k : e.kids)
    {
        auto l = limits (k, m.to);
        if (!l.active) continue;
        long n = 0;
        for (auto& x : old.kids) n += x.name == k.name;
        total += (size_t) std::max<long> (l.lo, n);
    }
    out.kids.reserve (total + 1);       // addresses stay put
    for (auto& k : e.kids)
    {
        auto l = limits (k, m.to);
        std::vector<std::pair<const Node *, int>> olds;
        int i = 0;
        for (auto& x : old.kids) if (x.name == k.name) olds.push_back ({&x, i++});
        if (!l.active) { if (!olds.empty ()) c.count ("surplus_dropped"); continue; }
        int n = (int) olds.size ();
        if (l.hi != 0 && n > l.hi) { n = l.hi; c.count ("surplus_dropped"); }
        if (n > 1) c.count ("repeated_instances");
        if (l.lo > (int) olds.size ()) c.count ("created_by_target");
        for (i = 0; i < std::max (n, l.lo); i++)
        {
            out.kids.emplace_back ();
            Node& x = out.kids.back ();
            x.name = k.name;
            x.section = k.section;
            if (i >= n)
            {
                if (k.section) x.kids = expected_content (k, m.to);
                else x.v = active_default (k, &m.to)->v;
                continue;
            }
            const Node& o = *olds[i].first;
            std::string full = (pre.empty () ? "" : pre + ".") + k.name + (i ? strf ("@%d", i) : "");
            if (k.section) { merge (m, k, o, x, full, depth + 1); continue; }
            auto *td = active_default (k, &m.to), *od = active_default (k, &m.from);
            bool ok = accepts (k, m.to, o.v);
            if (depth) c.count ("in_sections");
            if (td->intro <= m.from)
            {
                x.v = o.v;
                if (!ok) { m.conflicts[full] = {o.v, td->v, &k, false, Val (), false, &x}; c.count ("conflict_restricted"); }
                else if (!eq (o.v, od->v)) { m.interesting = true; c.count ("kept_custom"); }
            }
            else if (eq (o.v, td->v)) x.v = td->v;
            else if (eq (o.v, od->v)) { x.v = td->v; m.interesting = true; c.count ("new_default"); }
            else
            {
                // a new default of the old value is no change: keeping the value without asking is right as well
                x.v = o.v;
                m.conflicts[full] = {o.v, td->v, &k, eq (td->v, od->v) && ok, Val (), false, &x};
            }
        }
    }
}
static std::string differs (const Node& a, const Node& b, const std::string& at)
{
    if (!a.section) return eq (a.v, b.v) ? "" : at + ": " + a.v.str () + " vs " + b.v.str ();
    std::map<std::string, std::vector<const Node *>> x, y;
    for (auto& k : a.kids) x[k.name].push_back (&k);
    for (auto& k : b.kids) y[k.name].push_back (&k);
    for (auto& p : y) if (!x.count (p.first)) return at + "/" + p.first + ": not expected";
    for (auto& p : x)
    {
        auto& q = y[p.first];
        if (q.size () != p.second.size ()) return at + "/" + p.first + strf (": %zu vs %zu instances", p.second.size (), q.size ());
        for (size_t i = 0; i < q.size (); i++)
        {
            auto d = differs (*p.second[i], *q[i], at + "/" + p.first + strf ("@%zu", i));
            if (!d.empty ()) return d;
        }
    }
    return "";
}
static std::string literal (const Val& v)
{
    if (v.type == DISIR_VALUE_TYPE_FLOAT) return strf ("%.17g", v.d);
    return text_of (v);
}
static void customise (Rng& r, const MEl& e, Ver from, Ver to, Node& n, const GenOpt& o)
{
    for (auto& x : n.kids)
    {
        auto *k = e.find (x.name);
        if (x.section) { customise (r, *k, from, to, x, o); continue; }
        switch (r.below (4))
        {
        case 0: case 1: if (accepts (*k, from, active_default (*k, &from)->v)) x.v = active_default (*k, &from)->v; break;
        case 2: if (accepts (*k, from, active_default (*k, &to)->v) && r.chance (1, 2)) x.v = active_default (*k, &to)->v; break;
        default: break;
        }
    }
}
void driver_case (Case& c)
{
    Rng& r = c.r;
    GenOpt o;
    o.strings = (int) r.below (3);
    o.depth = (int) r.range (1, 4);
    o.width = 5;
    o.docs = false;
    o.empty_strings = true;
    MMold m;
    for (int i = 0; i < 4; i++) { m = gen_mold (r, o); if (breakpoints (m).size () > 2) break; }
    auto vs = breakpoints (m);
    std::sort (vs.begin (), vs.end ());
    auto *mold = build_mold (c, m);
    if (!mold) return;
    MConfig a;
    size_t i = r.below (vs.size ());
    if (vs.size () > 1 && i + 1 == vs.size ()) i = r.below (vs.size () - 1);
    a.ver = vs[i];
    Ver to = r.chance (1, 2) ? m.ver : vs[r.range ((int64_t) i, (int64_t) vs.size () - 1)];
    a.root = gen_config (r, m, a.ver, o);
    a.root.name = ""; a.root.section = true;
    customise (r, m, a.ver, to, a.root, o);
    c.log ("%s--- from %s to %s\n%s", m.mstr ().substr (0, 6000).c_str (), a.ver.str ().c_str (), to.str ().c_str (), a.str ().substr (0, 6000).c_str ());
    auto *cfg = build_config (c, mold, a);
    if (!cfg) { disir_mold_finished (&mold); return; }
    struct disir_update *up = nullptr;
    // targets that are none
    {
        disir_version raw = a.ver.raw ();
        auto st = disir_update_config (cfg, &raw, &up);
        if (st != DISIR_STATUS_NO_CAN_DO || up) c.violation ("same-version", "updating to the version it has returned %s", sname (st));
        raw = Ver {m.ver.a, m.ver.b + 1}.raw ();
        st = disir_update_config (cfg, &raw, &up);
        if (st == DISIR_STATUS_OK || st == DISIR_STATUS_CONFLICT || up) c.violation ("too-new", "updating to %u.%u above the mold's %s returned %s", raw.sv_major, raw.sv_minor, m.ver.str ().c_str (), sname (st));
        c.count ("too_new");
        if (i > 0)
        {
            raw = vs[r.below (i)].raw ();
            st = disir_update_config (cfg, &raw, &up);
            if (st != DISIR_STATUS_CONFLICTING_SEMVER || up) c.violation ("older", "updating to an older version returned %s", sname (st));
            c.count ("not_newer");
        }
    }
    MConfig d;
    if (to > a.ver && !c.failed)
    {
        Merge mg {c, a.ver, to, {}, false};
        MConfig want;
        want.ver = to;
        want.root.section = true;
        merge (mg, m, a.root, want.root, "", 0);
        c.count ("updates");
        auto raw = to.raw ();
        auto st = disir_update_config (cfg, to == m.ver && r.chance (1, 2) ? nullptr : &raw, &up);
        bool abandon = r.chance (1, 8), abandoned = false;
        long steps = 0;
        while (st == DISIR_STATUS_CONFLICT && up && !c.failed && steps++ < 4000)
        {
            const char *n = nullptr, *kv = nullptr, *mo = nullptr;
            if (!EXPECT_OK (c, disir_update_conflict (up, &n, &kv, &mo))) break;
            if (!n || !kv || !mo) { c.violation ("conflict:null", "a conflict without name or values"); break; }
            auto it = mg.conflicts.find (n);
            c.count ("conflicts");
            c.log ("conflict %s", n);
            if (it == mg.conflicts.end () || it->second.done) { c.violation ("conflict:unexpected", "conflict reported for %s, %s", n, it == mg.conflicts.end () ? "which has none" : "again"); break; }
            Want& w = it->second;
            if (kv != text_of (w.conf) || mo != text_of (w.mold)) { c.violation ("conflict:values", "conflict for %s shows %s and %s, expected %s and %s", n, quote (kv).c_str (), quote (mo).c_str (), quote (text_of (w.conf)).c_str (), quote (text_of (w.mold)).c_str ()); break; }
            if (strlen (kv) > 500) c.count ("long_values");
            if (r.chance (1, 3)) { st = disir_update_continue (up); if (st != DISIR_STATUS_CONFLICT) c.violation ("continue:unresolved", "continuing with an unresolved conflict returned %s", sname (st)); }
            if (abandon && r.chance (1, 2)) { abandoned = true; break; }
            if (r.chance (1, 4))
            {
                Val bad;
                if (gen_rejected (r, *w.e, to, o, bad) && literal (bad) != kv && literal (bad) != mo)
                {
                    st = disir_update_resolve (up, literal (bad).c_str ());
                    if (st == DISIR_STATUS_OK) c.violation ("resolve:restricted", "resolving %s with %s, which the mold does not admit, succeeded", n, bad.str ().c_str ());
                    c.count ("resolve_refused");
                    if (disir_update_resolve (up, nullptr) == DISIR_STATUS_OK) c.violation ("resolve:null", "resolving with NULL succeeded");
                    if (c.failed) break;
                }
            }
            Val choice;
            std::string txt;
            int how = (int) r.below (3);
            if (how == 0 && !accepts (*w.e, to, w.conf)) how = 1;
            if (how == 2)
            {
                choice = gen_accepted (r, *w.e, to, o);
                txt = literal (choice);
                if (txt.empty () || txt == kv || txt == mo || choice.type == DISIR_VALUE_TYPE_BOOLEAN) how = 1;
            }
            if (how == 0) { choice = w.conf; txt = kv; c.count ("resolve_config"); }
            if (how == 1) { choice = w.mold; txt = mo; c.count ("resolve_mold"); if (txt == kv && accepts (*w.e, to, w.conf)) choice = w.conf; else if (txt == kv) { c.log ("ambiguous text"); abandoned = true; break; } }
            if (how == 2) c.count ("resolve_other");
            st = disir_update_resolve (up, txt.c_str ());
            if (st != DISIR_STATUS_OK) { c.violation ("resolve", "resolving %s with %s returned %s", n, quote (txt).c_str (), sname (st)); break; }
            w.done = true;
            w.chosen = choice;
            w.at->v = choice;
            if (r.chance (1, 4)) { const char *x; st = disir_update_conflict (up, &x, &x, &x); if (st != DISIR_STATUS_NO_CAN_DO) c.violation ("conflict:resolved", "after resolving, the conflict query returned %s", sname (st)); if (disir_update_resolve (up, "1") != DISIR_STATUS_NO_CAN_DO) c.violation ("resolve:none", "resolving without a conflict did not return NO_CAN_DO"); }
            st = disir_update_continue (up);
        }
        if (!c.failed && !abandoned)
        {
            if (st != DISIR_STATUS_OK) c.violation ("status", "the update ended with %s", sname (st));
            for (auto& p : mg.conflicts)
                if (!p.second.done && !p.second.optional && !c.failed) c.violation ("conflict:missing", "%s (value %s, default at target %s) was not reported as a conflict", p.first.c_str (), p.second.conf.str ().c_str (), p.second.mold.str ().c_str ());
        }
        struct disir_config *out = nullptr;
        if (up)
        {
            bool take = !abandoned || r.chance (1, 2);
            EXPECT_OK (c, disir_update_finished (&up, take ? &out : nullptr));
            if (up) c.violation ("finished", "disir_update_finished left the handle");
        }
        if (abandoned) c.count ("abandoned");
        if (out && !abandoned && !c.failed)
        {
            struct disir_collection *col = nullptr;
            st = disir_config_valid (out, &col);
            if (st != DISIR_STATUS_OK) c.violation ("valid", "the updated configuration is %s", sname (st));
            if (col) { for (auto *h : collect (col)) dc_putcontext (&h); dc_collection_finished (&col); }
            if (dump_config (c, out, d))
            {
                if (!(d.ver == to)) c.violation ("version", "updated to %s, has %s", to.str ().c_str (), d.ver.str ().c_str ());
                auto w = differs (want.root, d.root, "");
                if (!w.empty ()) c.violation ("content", "expected vs updated: %s", w.c_str ());
            }
            if (mg.interesting) c.nontrivial (m.mstr () + a.str () + to.str ());
            if (c.no % 401 == 2) c.sample ("from " + a.str ().substr (0, 300) + "to " + d.str ().substr (0, 300));
        }
        if (out) disir_config_finished (&out);
    }
    if (up) disir_update_finished (&up, nullptr);
    if (!c.failed && dump_config (c, cfg, d) && !(d == a)) c.violation ("old", "the update changed the old configuration: %s", first_difference (a.root, d.root).c_str ());
    disir_config_finished (&cfg);
    disir_mold_finished (&mold);
}
