// C11: refused sets and gets change nothing.
#include "query.inc"
const char *PROPERTY = "C11";
const char *RULE = "one history of path sets and gets on one configuration; distinct by mold, version and history; non-trivial: at least one set accepted and one refused";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"sets_refused", 8000}, {"refused_malformed", 1000}, {"refused_over_long", 200}, {"refused_gap", 200}, {"refused_limit", 200}, {"refused_type", 200},
    {"refused_value", 200}, {"refused_unknown", 200}, {"refused_section_as_keyval", 100}, {"refused_keyval_as_section", 100}, {"refused_not_at_version", 100}};
void driver_case (Case& c) { query_case (c, !c.r.chance (1, 8)); }
