// The plugin library d_load.cc compiles (several times, differently) and loads. It reports to the driver.
#include <disir/disir.h>
#include <disir/plugin.h>
#include <stdlib.h>
#include <string.h>
int plug_event (const char *what, const char *lib, const char *cbase, const char *mbase, void *storage, struct disir_instance *instance);
#ifdef MISSING
int plug_never_defined (void);
#endif
#ifndef LIBNAME
#define LIBNAME "?"
#endif
__attribute__ ((constructor)) static void come (void) { plug_event ("load", LIBNAME, 0, 0, 0, 0); }
__attribute__ ((destructor)) static void go (void) { plug_event ("unload", LIBNAME, 0, 0, 0, 0); }
static enum disir_status finished (struct disir_instance *i, struct disir_register_plugin *p)
{
    plug_event ("finish", LIBNAME, p->dp_config_base_id, p->dp_mold_base_id, p->dp_storage, i);
    if (strcmp (p->dp_name, "name of " LIBNAME)) plug_event ("badname", LIBNAME, p->dp_name, 0, 0, i);
    free (p->dp_storage);
    return plug_event ("finish-status", LIBNAME, 0, 0, 0, 0);
}
static enum disir_status entries (struct disir_instance *i, struct disir_register_plugin *p, struct disir_entry **e)
{
    plug_event ("entries", LIBNAME, p->dp_config_base_id, p->dp_mold_base_id, p->dp_storage, i);
    if (strcmp (p->dp_name, "name of " LIBNAME) || strcmp (p->dp_description, "text of " LIBNAME) || strcmp (p->dp_config_entry_type, "ct") || strcmp (p->dp_mold_entry_type, "mt")) plug_event ("badname", LIBNAME, p->dp_name, 0, 0, i);
    *e = 0;
    return DISIR_STATUS_OK;
}
#ifndef NOSYMBOL
enum disir_status dio_register_plugin (struct disir_instance *instance, struct disir_register_plugin *plugin)
{
    // the registration's strings need not outlive the call
    static char name[] = "name of " LIBNAME, text[] = "text of " LIBNAME;
    int *mine = malloc (sizeof (int));
    *mine = 77;
    int st = plug_event ("register", LIBNAME, plugin->dp_config_base_id, plugin->dp_mold_base_id, mine, instance);
#ifdef MISSING
    st += plug_never_defined ();
#endif
    if (st) { free (mine); return (enum disir_status) st; }
    plugin->dp_name = name;
    plugin->dp_description = text;
    plugin->dp_config_entry_type = (char *) "ct";
    plugin->dp_mold_entry_type = (char *) "mt";
    plugin->dp_storage = mine;
    plugin->dp_plugin_finished = finished;
    plugin->dp_config_entries = entries;
    return DISIR_STATUS_OK;
}
#endif
