// Model of molds and configurations used by the oracles: what the documented rules say, computed
// without the library; builders and dumpers that go through the public API only.
#pragma once
#include "common.hh"
#include <disir/disir.h>
#include <disir/context.h>
#include <disir/archive.h>

struct Ver
{
    uint32_t a = 1, b = 0;
    bool zero () const { return a == 0 && b == 0; }
    bool operator< (const Ver& o) const { return a != o.a ? a < o.a : b < o.b; }
    bool operator== (const Ver& o) const { return a == o.a && b == o.b; }
    bool operator!= (const Ver& o) const { return !(*this == o); }
    bool operator<= (const Ver& o) const { return !(o < *this); }
    bool operator> (const Ver& o) const { return o < *this; }
    bool operator>= (const Ver& o) const { return !(*this < o); }
    std::string str () const { return strf ("%u.%u", a, b); }
    disir_version raw () const { disir_version v; v.sv_major = a; v.sv_minor = b; return v; }
};
inline Ver ver_of (const disir_version& v) { Ver r; r.a = v.sv_major; r.b = v.sv_minor; return r; }

struct Val
{
    int type = DISIR_VALUE_TYPE_UNKNOWN;      // disir_value_type
    std::string s; int64_t i = 0; double d = 0; bool b = false;
    bool operator== (const Val& o) const
    {
        if (type != o.type) return false;
        switch (type)
        {
        case DISIR_VALUE_TYPE_STRING: case DISIR_VALUE_TYPE_ENUM: return s == o.s;
        case DISIR_VALUE_TYPE_INTEGER: return i == o.i;
        case DISIR_VALUE_TYPE_FLOAT: return d == o.d && std::signbit (d) == std::signbit (o.d);
        case DISIR_VALUE_TYPE_BOOLEAN: return b == o.b;
        }
        return true;
    }
    bool operator!= (const Val& o) const { return !(*this == o); }
    std::string str () const
    {
        switch (type)
        {
        case DISIR_VALUE_TYPE_STRING: return "s:" + quote (s);
        case DISIR_VALUE_TYPE_ENUM: return "e:" + quote (s);
        case DISIR_VALUE_TYPE_INTEGER: return strf ("i:%lld", (long long) i);
        case DISIR_VALUE_TYPE_FLOAT: return strf ("f:%.17g", d);
        case DISIR_VALUE_TYPE_BOOLEAN: return b ? "b:true" : "b:false";
        }
        return "?";
    }
    static Val S (const std::string& x) { Val v; v.type = DISIR_VALUE_TYPE_STRING; v.s = x; return v; }
    static Val E (const std::string& x) { Val v; v.type = DISIR_VALUE_TYPE_ENUM; v.s = x; return v; }
    static Val I (int64_t x) { Val v; v.type = DISIR_VALUE_TYPE_INTEGER; v.i = x; return v; }
    static Val F (double x) { Val v; v.type = DISIR_VALUE_TYPE_FLOAT; v.d = x; return v; }
    static Val B (bool x) { Val v; v.type = DISIR_VALUE_TYPE_BOOLEAN; v.b = x; return v; }
};

struct MDoc { Ver intro; std::string text; };
struct MDef { Ver intro; Val v; };
struct MRes
{
    int type = DISIR_RESTRICTION_UNKNOWN;
    Ver intro, depr {0, 0};
    double lo = 0, hi = 0;           // lo: minimum / numeric / MIN value; hi: maximum / MAX value
    std::string s;
    std::vector<MDoc> docs;
    bool value () const { return type >= DISIR_RESTRICTION_EXC_VALUE_ENUM; }
    std::string str () const;
};
struct MEl
{
    std::string name;
    bool section = false;
    int vtype = DISIR_VALUE_TYPE_UNKNOWN;
    Ver intro, depr {0, 0};          // intro: sections only
    std::vector<MDef> defs;          // keyvals, sorted by intro
    std::vector<MRes> res;
    std::vector<MDoc> docs;
    std::vector<MEl> kids;
    const MEl *find (const std::string& n) const;
    std::string str (int ind = 0) const;
};
struct MMold : MEl { Ver ver; MMold () { section = true; } std::string mstr () const; };

struct Node                          // element of a configuration
{
    std::string name;
    bool section = false;
    Val v;
    std::vector<Node> kids;
    std::string str (int ind = 0) const;
    bool operator== (const Node& o) const
    {
        return name == o.name && section == o.section && (section || v == o.v) && kids == o.kids;
    }
};
struct MConfig { Ver ver; Node root; bool operator== (const MConfig& o) const { return ver == o.ver && root == o.root; }
                 std::string str () const { return "version " + ver.str () + "\n" + root.str (); } };
std::string first_difference (const Node& a, const Node& b, const std::string& at = "");
std::string first_difference (const MEl& a, const MEl& b, const std::string& at = "");   // molds, sections, keyvals

// ---- semantics ----
struct Limits { bool active; int lo, hi; };         // hi == 0: unlimited; inactive: no instance allowed
Ver el_introduced (const MEl& e);
bool el_active (const MEl& e, Ver v);
Limits limits (const MEl& e, Ver v);
bool res_active (const MRes& r, Ver v);
bool accepts (const MEl& e, Ver v, const Val& x);   // value restrictions
const MDef *active_default (const MEl& e, const Ver *v);
Ver mold_version (const MMold& m);                  // highest version mentioned
std::vector<Node> expected_content (const MEl& e, Ver v);
// breaches of the rules within a config, by path ("" = the root)
void invalid_parts (const MEl& e, Ver v, const Node& n, const std::string& path, std::set<std::string>& out, bool known = true);
std::vector<Ver> breakpoints (const MMold& m);      // every version mentioned and neighbours, up to the mold's

// ---- generation ----
struct GenOpt
{
    int depth = 3, width = 4;
    int max_min = 2;                 // largest minimum-entries
    bool extreme_values = true;      // huge integers, odd doubles
    bool nul_free = true;
    int strings = 2;                 // 0 plain, 1 printable, 2 any UTF-8, 3 any bytes
    bool docs = true, restrictions = true, deprecations = true, versions = true;
    bool multi_docs = false;
    bool incl_depr = true;           // deprecated occurrence restrictions
    bool finite = true;              // no NaN or infinity
    bool types[6] = {false, true, true, true, true, true};
    bool empty_strings = true;
    bool control_chars = true;
    bool frac_versions = true;
};
std::string gen_name (Rng& r);
std::string gen_illegal_name (Rng& r);
std::string gen_string (Rng& r, const GenOpt& o);
int64_t gen_int (Rng& r, const GenOpt& o);
double gen_double (Rng& r, const GenOpt& o);
Val gen_value (Rng& r, int type, const GenOpt& o);
Ver gen_ver (Rng& r);
MMold gen_mold (Rng& r, const GenOpt& o);
// a value the element accepts at the version
Val gen_accepted (Rng& r, const MEl& e, Ver v, const GenOpt& o);
bool gen_rejected (Rng& r, const MEl& e, Ver v, const GenOpt& o, Val& out);
Node gen_config (Rng& r, const MEl& e, Ver v, const GenOpt& o);   // valid content of e at v

// ---- through the API ----
const char *sname (enum disir_status s);
#define EXPECT_OK(c, call)                                                                             \
    ([&] { enum disir_status s_ = (call);                                                              \
        if (s_ != DISIR_STATUS_OK)                                                                     \
            (c).violation (std::string ("status:") + #call, "%s returned %s", #call, sname (s_));      \
        return s_ == DISIR_STATUS_OK; } ())
enum disir_status set_value (struct disir_context *ctx, const Val& v);
enum disir_status get_value (struct disir_context *ctx, int type, Val& v);
enum disir_status add_default (struct disir_context *kv, const Val& v, const Ver& intro);
bool build_docs (Case& c, struct disir_context *ctx, const std::vector<MDoc>& docs);
bool build_restriction (Case& c, struct disir_context *parent, const MRes& r, int vtype);
struct disir_context *build_element (Case& c, struct disir_context *parent, const MEl& e);  // NULL on failure; handle returned
struct disir_mold *build_mold (Case& c, const MMold& m);          // expects success and validity
struct disir_config *build_config (Case& c, struct disir_mold *mold, const MConfig& m);
bool build_node (Case& c, struct disir_context *parent, const Node& n);
bool dump_node (Case& c, struct disir_context *ctx, Node& out);
bool dump_config (Case& c, struct disir_config *cfg, MConfig& out);
bool dump_element (Case& c, struct disir_context *ctx, MEl& out, const std::vector<Ver>& docprobe);
bool dump_mold (Case& c, struct disir_mold *mold, MMold& out, const std::vector<Ver>& docprobe);
std::string own_name (struct disir_context *ctx);
// what a collection holds; puts nothing back: caller owns the handles
std::vector<struct disir_context *> collect (struct disir_collection *col);
void put (struct disir_context *&c);
