// C10: sets and gets by path.
#include "query.inc"
const char *PROPERTY = "C10";
const char *RULE = "one history of path sets and gets on one configuration; distinct by mold, version and history; non-trivial: at least one set accepted and one refused";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"sets_accepted", 8000}, {"created", 1500}, {"created_nested", 500}, {"gets_found", 2000}, {"gets_refused", 2000}, {"resolved", 2000}};
void driver_case (Case& c) { query_case (c, c.r.chance (1, 6)); }
