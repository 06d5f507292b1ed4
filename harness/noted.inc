// Every library call of d_api.cc recorded with its result in the history of the thread that makes it: included
// in front of d_api.cc by the drivers that compare histories.
#pragma once
static thread_local std::string *g_noted = nullptr;
template <class F> auto noted (const char *name, F f) -> decltype (f ())
{
    typedef decltype (f ()) R;
    if constexpr (std::is_void<R>::value) { if (g_noted) *g_noted += std::string ("CALL ") + name + "\n=> done\n"; f (); }
    else
    {
        if (g_noted) *g_noted += std::string ("CALL ") + name + "\n";
        R v = f ();
        if (g_noted)
        {
            if constexpr (std::is_same<R, enum disir_status>::value) *g_noted += std::string ("=> ") + sname (v) + "\n";
            else if constexpr (std::is_pointer<R>::value) *g_noted += v ? "=> OK\n" : "=> NULL\n";
            else *g_noted += "=> " + std::to_string ((long long) v) + "\n";
        }
        return v;
    }
}
#define dc_add_default(...) noted ("dc_add_default", [&] { return (dc_add_default) (__VA_ARGS__); })
#define dc_add_default_integer(...) noted ("dc_add_default_integer", [&] { return (dc_add_default_integer) (__VA_ARGS__); })
#define dc_add_deprecated(...) noted ("dc_add_deprecated", [&] { return (dc_add_deprecated) (__VA_ARGS__); })
#define dc_add_documentation(...) noted ("dc_add_documentation", [&] { return (dc_add_documentation) (__VA_ARGS__); })
#define dc_add_introduced(...) noted ("dc_add_introduced", [&] { return (dc_add_introduced) (__VA_ARGS__); })
#define dc_add_keyval_boolean(...) noted ("dc_add_keyval_boolean", [&] { return (dc_add_keyval_boolean) (__VA_ARGS__); })
#define dc_add_keyval_enum(...) noted ("dc_add_keyval_enum", [&] { return (dc_add_keyval_enum) (__VA_ARGS__); })
#define dc_add_keyval_float(...) noted ("dc_add_keyval_float", [&] { return (dc_add_keyval_float) (__VA_ARGS__); })
#define dc_add_keyval_integer(...) noted ("dc_add_keyval_integer", [&] { return (dc_add_keyval_integer) (__VA_ARGS__); })
#define dc_add_keyval_string(...) noted ("dc_add_keyval_string", [&] { return (dc_add_keyval_string) (__VA_ARGS__); })
#define dc_add_restriction_entries_max(...) noted ("dc_add_restriction_entries_max", [&] { return (dc_add_restriction_entries_max) (__VA_ARGS__); })
#define dc_add_restriction_entries_min(...) noted ("dc_add_restriction_entries_min", [&] { return (dc_add_restriction_entries_min) (__VA_ARGS__); })
#define dc_add_restriction_value_enum(...) noted ("dc_add_restriction_value_enum", [&] { return (dc_add_restriction_value_enum) (__VA_ARGS__); })
#define dc_add_restriction_value_numeric(...) noted ("dc_add_restriction_value_numeric", [&] { return (dc_add_restriction_value_numeric) (__VA_ARGS__); })
#define dc_add_restriction_value_range(...) noted ("dc_add_restriction_value_range", [&] { return (dc_add_restriction_value_range) (__VA_ARGS__); })
#define dc_begin(...) noted ("dc_begin", [&] { return (dc_begin) (__VA_ARGS__); })
#define dc_collection_create(...) noted ("dc_collection_create", [&] { return (dc_collection_create) (__VA_ARGS__); })
#define dc_collection_finished(...) noted ("dc_collection_finished", [&] { return (dc_collection_finished) (__VA_ARGS__); })
#define dc_collection_next(...) noted ("dc_collection_next", [&] { return (dc_collection_next) (__VA_ARGS__); })
#define dc_collection_push_context(...) noted ("dc_collection_push_context", [&] { return (dc_collection_push_context) (__VA_ARGS__); })
#define dc_collection_reset(...) noted ("dc_collection_reset", [&] { return (dc_collection_reset) (__VA_ARGS__); })
#define dc_compare(...) noted ("dc_compare", [&] { return (dc_compare) (__VA_ARGS__); })
#define dc_config_begin(...) noted ("dc_config_begin", [&] { return (dc_config_begin) (__VA_ARGS__); })
#define dc_config_finalize(...) noted ("dc_config_finalize", [&] { return (dc_config_finalize) (__VA_ARGS__); })
#define dc_config_get_keyval_boolean(...) noted ("dc_config_get_keyval_boolean", [&] { return (dc_config_get_keyval_boolean) (__VA_ARGS__); })
#define dc_config_get_keyval_enum(...) noted ("dc_config_get_keyval_enum", [&] { return (dc_config_get_keyval_enum) (__VA_ARGS__); })
#define dc_config_get_keyval_float(...) noted ("dc_config_get_keyval_float", [&] { return (dc_config_get_keyval_float) (__VA_ARGS__); })
#define dc_config_get_keyval_integer(...) noted ("dc_config_get_keyval_integer", [&] { return (dc_config_get_keyval_integer) (__VA_ARGS__); })
#define dc_config_get_keyval_string(...) noted ("dc_config_get_keyval_string", [&] { return (dc_config_get_keyval_string) (__VA_ARGS__); })
#define dc_config_getcontext(...) noted ("dc_config_getcontext", [&] { return (dc_config_getcontext) (__VA_ARGS__); })
#define dc_config_set_keyval_boolean(...) noted ("dc_config_set_keyval_boolean", [&] { return (dc_config_set_keyval_boolean) (__VA_ARGS__); })
#define dc_config_set_keyval_enum(...) noted ("dc_config_set_keyval_enum", [&] { return (dc_config_set_keyval_enum) (__VA_ARGS__); })
#define dc_config_set_keyval_float(...) noted ("dc_config_set_keyval_float", [&] { return (dc_config_set_keyval_float) (__VA_ARGS__); })
#define dc_config_set_keyval_integer(...) noted ("dc_config_set_keyval_integer", [&] { return (dc_config_set_keyval_integer) (__VA_ARGS__); })
#define dc_config_set_keyval_string(...) noted ("dc_config_set_keyval_string", [&] { return (dc_config_set_keyval_string) (__VA_ARGS__); })
#define dc_context_valid(...) noted ("dc_context_valid", [&] { return (dc_context_valid) (__VA_ARGS__); })
#define dc_destroy(...) noted ("dc_destroy", [&] { return (dc_destroy) (__VA_ARGS__); })
#define dc_fatal_error(...) noted ("dc_fatal_error", [&] { return (dc_fatal_error) (__VA_ARGS__); })
#define dc_finalize(...) noted ("dc_finalize", [&] { return (dc_finalize) (__VA_ARGS__); })
#define dc_finalize_keep_reference(...) noted ("dc_finalize_keep_reference", [&] { return (dc_finalize_keep_reference) (__VA_ARGS__); })
#define dc_find_element(...) noted ("dc_find_element", [&] { return (dc_find_element) (__VA_ARGS__); })
#define dc_find_elements(...) noted ("dc_find_elements", [&] { return (dc_find_elements) (__VA_ARGS__); })
#define dc_generate_from_config_root(...) noted ("dc_generate_from_config_root", [&] { return (dc_generate_from_config_root) (__VA_ARGS__); })
#define dc_get_default(...) noted ("dc_get_default", [&] { return (dc_get_default) (__VA_ARGS__); })
#define dc_get_default_contexts(...) noted ("dc_get_default_contexts", [&] { return (dc_get_default_contexts) (__VA_ARGS__); })
#define dc_get_deprecated(...) noted ("dc_get_deprecated", [&] { return (dc_get_deprecated) (__VA_ARGS__); })
#define dc_get_documentation(...) noted ("dc_get_documentation", [&] { return (dc_get_documentation) (__VA_ARGS__); })
#define dc_get_elements(...) noted ("dc_get_elements", [&] { return (dc_get_elements) (__VA_ARGS__); })
#define dc_get_introduced(...) noted ("dc_get_introduced", [&] { return (dc_get_introduced) (__VA_ARGS__); })
#define dc_get_name(...) noted ("dc_get_name", [&] { return (dc_get_name) (__VA_ARGS__); })
#define dc_get_restriction_type(...) noted ("dc_get_restriction_type", [&] { return (dc_get_restriction_type) (__VA_ARGS__); })
#define dc_get_value(...) noted ("dc_get_value", [&] { return (dc_get_value) (__VA_ARGS__); })
#define dc_get_value_type(...) noted ("dc_get_value_type", [&] { return (dc_get_value_type) (__VA_ARGS__); })
#define dc_get_version(...) noted ("dc_get_version", [&] { return (dc_get_version) (__VA_ARGS__); })
#define dc_keyval_set_default(...) noted ("dc_keyval_set_default", [&] { return (dc_keyval_set_default) (__VA_ARGS__); })
#define dc_mold_begin(...) noted ("dc_mold_begin", [&] { return (dc_mold_begin) (__VA_ARGS__); })
#define dc_mold_finalize(...) noted ("dc_mold_finalize", [&] { return (dc_mold_finalize) (__VA_ARGS__); })
#define dc_mold_getcontext(...) noted ("dc_mold_getcontext", [&] { return (dc_mold_getcontext) (__VA_ARGS__); })
#define dc_putcontext(...) noted ("dc_putcontext", [&] { return (dc_putcontext) (__VA_ARGS__); })
#define dc_query_resolve_context(...) noted ("dc_query_resolve_context", [&] { return (dc_query_resolve_context) (__VA_ARGS__); })
#define dc_resolve_root_name(...) noted ("dc_resolve_root_name", [&] { return (dc_resolve_root_name) (__VA_ARGS__); })
#define dc_restriction_collection(...) noted ("dc_restriction_collection", [&] { return (dc_restriction_collection) (__VA_ARGS__); })
#define dc_restriction_entries_maximum(...) noted ("dc_restriction_entries_maximum", [&] { return (dc_restriction_entries_maximum) (__VA_ARGS__); })
#define dc_restriction_entries_minimum(...) noted ("dc_restriction_entries_minimum", [&] { return (dc_restriction_entries_minimum) (__VA_ARGS__); })
#define dc_restriction_get_numeric(...) noted ("dc_restriction_get_numeric", [&] { return (dc_restriction_get_numeric) (__VA_ARGS__); })
#define dc_restriction_get_range(...) noted ("dc_restriction_get_range", [&] { return (dc_restriction_get_range) (__VA_ARGS__); })
#define dc_restriction_get_string(...) noted ("dc_restriction_get_string", [&] { return (dc_restriction_get_string) (__VA_ARGS__); })
#define dc_restriction_set_numeric(...) noted ("dc_restriction_set_numeric", [&] { return (dc_restriction_set_numeric) (__VA_ARGS__); })
#define dc_restriction_set_range(...) noted ("dc_restriction_set_range", [&] { return (dc_restriction_set_range) (__VA_ARGS__); })
#define dc_restriction_set_string(...) noted ("dc_restriction_set_string", [&] { return (dc_restriction_set_string) (__VA_ARGS__); })
#define dc_set_name(...) noted ("dc_set_name", [&] { return (dc_set_name) (__VA_ARGS__); })
#define dc_set_restriction_type(...) noted ("dc_set_restriction_type", [&] { return (dc_set_restriction_type) (__VA_ARGS__); })
#define dc_set_value(...) noted ("dc_set_value", [&] { return (dc_set_value) (__VA_ARGS__); })
#define dc_set_value_integer(...) noted ("dc_set_value_integer", [&] { return (dc_set_value_integer) (__VA_ARGS__); })
#define dc_set_value_type(...) noted ("dc_set_value_type", [&] { return (dc_set_value_type) (__VA_ARGS__); })
#define dc_set_version(...) noted ("dc_set_version", [&] { return (dc_set_version) (__VA_ARGS__); })
#define disir_config_finished(...) noted ("disir_config_finished", [&] { return (disir_config_finished) (__VA_ARGS__); })
#define disir_config_get_mold(...) noted ("disir_config_get_mold", [&] { return (disir_config_get_mold) (__VA_ARGS__); })
#define disir_config_valid(...) noted ("disir_config_valid", [&] { return (disir_config_valid) (__VA_ARGS__); })
#define disir_generate_config_from_mold(...) noted ("disir_generate_config_from_mold", [&] { return (disir_generate_config_from_mold) (__VA_ARGS__); })
#define disir_mold_finished(...) noted ("disir_mold_finished", [&] { return (disir_mold_finished) (__VA_ARGS__); })
#define disir_mold_valid(...) noted ("disir_mold_valid", [&] { return (disir_mold_valid) (__VA_ARGS__); })
#define disir_update_config(...) noted ("disir_update_config", [&] { return (disir_update_config) (__VA_ARGS__); })
#define disir_update_conflict(...) noted ("disir_update_conflict", [&] { return (disir_update_conflict) (__VA_ARGS__); })
#define disir_update_continue(...) noted ("disir_update_continue", [&] { return (disir_update_continue) (__VA_ARGS__); })
#define disir_update_finished(...) noted ("disir_update_finished", [&] { return (disir_update_finished) (__VA_ARGS__); })
#define disir_update_resolve(...) noted ("disir_update_resolve", [&] { return (disir_update_resolve) (__VA_ARGS__); })
#define set_value(...) noted ("set_value", [&] { return (set_value) (__VA_ARGS__); })
#define get_value(...) noted ("get_value", [&] { return (get_value) (__VA_ARGS__); })
#define add_default(...) noted ("add_default", [&] { return (add_default) (__VA_ARGS__); })
#define NOTE_TEXT(s) do { if (g_noted) *g_noted += std::string ("text ") + ((s) ? (s) : "(null)") + "\n"; } while (0)
