// An instance with file-system plugins registered in-process, over scratch directories.
#include "dis.hh"
#include <disir/plugin.h>
#include <disir/fslib/json.h>
#include <disir/fslib/toml.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>

enum PluginKind { JSON_PLUGIN, TOML_PLUGIN };
static inline disir_register_plugin plugin_of (PluginKind kind, const std::string& cdir, const std::string& mdir)
{
    disir_register_plugin p;
    memset (&p, 0, sizeof p);
    p.dp_name = (char *) (kind == JSON_PLUGIN ? "JSON" : "TOML");
    p.dp_description = (char *) "in-process";
    p.dp_config_entry_type = (char *) (kind == JSON_PLUGIN ? "json" : "toml");
    p.dp_mold_entry_type = (char *) "json";
    p.dp_config_base_id = (char *) cdir.c_str ();
    p.dp_mold_base_id = (char *) mdir.c_str ();
    p.dp_config_read = kind == JSON_PLUGIN ? dio_json_config_read : dio_toml_config_read;
    p.dp_config_write = kind == JSON_PLUGIN ? dio_json_config_write : dio_toml_config_write;
    p.dp_config_remove = dio_json_config_remove;             // by file name: the same for both
    p.dp_config_fd_write = kind == JSON_PLUGIN ? dio_json_config_fd_write : dio_toml_serialize_config;
    p.dp_config_fd_read = kind == JSON_PLUGIN ? dio_json_config_fd_read : dio_toml_unserialize_config;
    p.dp_config_entries = kind == JSON_PLUGIN ? dio_json_config_entries : dio_toml_config_entries;
    p.dp_config_query = kind == JSON_PLUGIN ? dio_json_config_query : dio_toml_config_query;
    p.dp_mold_read = dio_json_mold_read;
    p.dp_mold_write = dio_json_mold_write;
    p.dp_mold_entries = dio_json_mold_entries;
    p.dp_mold_query = dio_json_mold_query;
    return p;
}
struct Inst
{
    struct disir_instance *p = nullptr;
    bool make (Case& c) { return EXPECT_OK (c, disir_instance_create (nullptr, nullptr, &p)) && p; }
    // the instance takes the two directory strings over
    bool plugin (Case& c, PluginKind kind, const char *io, const char *group, const std::string& cdir, const std::string& mdir)
    {
        auto d = plugin_of (kind, cdir, mdir);
        d.dp_config_base_id = strdup (cdir.c_str ());
        d.dp_mold_base_id = strdup (mdir.c_str ());
        return EXPECT_OK (c, disir_plugin_register (p, &d, io, group));
    }
    void done (Case& c)
    {
        if (!p) return;
        auto st = disir_instance_destroy (&p);
        if (st != DISIR_STATUS_OK || p) c.violation ("instance-destroy", "disir_instance_destroy returned %s", sname (st));
    }
    std::string error () const { const char *e = p ? disir_error (p) : nullptr; return e ? e : ""; }
};

// ---- files --------------------------------------------------------------------------------------
static inline void wipe (const std::string& path)       // below the scratch directory only
{
    if (path.compare (0, scratch_dir ().size () + 1, scratch_dir () + "/") != 0) abort ();
    struct stat sb;
    if (lstat (path.c_str (), &sb)) return;
    if (S_ISDIR (sb.st_mode))
    {
        chmod (path.c_str (), 0700);
        if (DIR *d = opendir (path.c_str ()))
        {
            std::vector<std::string> names;
            while (struct dirent *e = readdir (d)) if (strcmp (e->d_name, ".") && strcmp (e->d_name, "..")) names.push_back (e->d_name);
            closedir (d);
            for (auto& n : names) wipe (path + "/" + n);
        }
        rmdir (path.c_str ());
    }
    else unlink (path.c_str ());
}
static inline bool slurp (const std::string& path, std::string& out)
{
    int fd = open (path.c_str (), O_RDONLY);
    if (fd < 0) return false;
    out.clear ();
    char buf[16384];
    ssize_t n;
    while ((n = read (fd, buf, sizeof buf)) > 0) out.append (buf, n);
    close (fd);
    return true;
}
static inline void spill (const std::string& path, const std::string& data)
{
    int fd = open (path.c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return;
    size_t at = 0;
    while (at < data.size ()) { ssize_t n = write (fd, data.data () + at, data.size () - at); if (n <= 0) break; at += n; }
    close (fd);
}
static inline void mkdirs (const std::string& path)
{
    for (size_t at = 1; at <= path.size (); at++)
        if (at == path.size () || path[at] == '/') mkdir (path.substr (0, at).c_str (), 0755);
}
// every regular file below 'dir' with its content
static inline void snapshot (const std::string& dir, const std::string& rel, std::map<std::string, std::string>& out)
{
    DIR *d = opendir (dir.c_str ());
    if (!d) return;
    std::vector<std::string> names;
    while (struct dirent *e = readdir (d)) if (strcmp (e->d_name, ".") && strcmp (e->d_name, "..")) names.push_back (e->d_name);
    closedir (d);
    for (auto& n : names)
    {
        struct stat sb;
        std::string p = dir + "/" + n, r = rel.empty () ? n : rel + "/" + n;
        if (lstat (p.c_str (), &sb)) continue;
        if (S_ISDIR (sb.st_mode)) { out[r + "/"] = ""; snapshot (p, r, out); }
        else if (S_ISLNK (sb.st_mode)) { char b[4096]; ssize_t k = readlink (p.c_str (), b, sizeof b); out[r] = "-> " + std::string (b, k > 0 ? k : 0); }
        else { std::string s; slurp (p, s); out[r] = s; }
    }
}
// an anonymous file as FILE*
struct Mem
{
    FILE *f = nullptr;
    Mem () { int fd = memfd_create ("m", 0); f = fdopen (fd, "w+"); }
    explicit Mem (const std::string& text) : Mem () { size_t at = 0; while (at < text.size ()) { ssize_t n = write (fileno (f), text.data () + at, text.size () - at); if (n <= 0) break; at += n; } lseek (fileno (f), 0, SEEK_SET); }
    ~Mem () { if (f) fclose (f); }
    std::string text ()
    {
        fflush (f);
        std::string s; char b[16384]; off_t at = 0; ssize_t n;
        while ((n = pread (fileno (f), b, sizeof b, at)) > 0) { s.append (b, n); at += n; }
        return s;
    }
    Mem (const Mem&) = delete;
};
