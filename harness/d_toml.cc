// C17: configurations survive the trip through their TOML text.
#define SERIAL_KIND TOML_PLUGIN
#define SERIAL_OPT(o, r) (void) 0
#include "serial.inc"
const char *PROPERTY = "C17";
const char *RULE = "one configuration of one mold written and read back; distinct by content of both; non-trivial: at least one element";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"trips", 4000}, {"stored", 800}, {"nested", 1000}, {"repeated_values", 500}, {"repeated_sections", 500}, {"crowds", 100}, {"empty_sections", 100}, {"empty_strings", 100}, {"control_chars", 300}, {"non_ascii", 300},
    {"quotes_or_backslashes", 300}, {"wide_integers", 300}, {"integral_doubles", 300}, {"seventeen_digit_doubles", 300}, {"enums", 300}, {"full_devices", 2000}, {"unwritable_doubles", 100}};
long driver_directed () { return 0; }
void driver_setup () {}
