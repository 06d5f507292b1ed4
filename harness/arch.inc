// Archives: a supervised file system boundary, installations with several groups, an independent reader
// and writer of archive containers.
//
// The driver defines the C library's file functions itself (they take precedence over the shared C library
// for libdisir, libarchive and libstdc++ alike) and thereby
//   - refuses and records every modification outside the scratch directory and outside temporaries the
//     library made for itself directly below /tmp,
//   - records those temporaries, so that what is left of them can be told,
//   - makes a chosen call fail, be cut short, or end the process.
#include "store.inc"
#include <archive.h>
#include <archive_entry.h>
#include <dlfcn.h>
#include <limits.h>
#include <stdarg.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <utime.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <signal.h>
extern thread_local FILE *g_log_file;

// ---- the boundary ---------------------------------------------------------------------------------------
struct Box
{
    bool on = false, faults = false;
    long n = 0, at = 0; int err = 0; bool cut = false, kill = false, hit = false, sticky = false; const char *site = "";
    std::vector<std::string> bad, temps, watched_hits;
    std::string scratch, watched;            // 'watched': nothing below may be opened
    long calls = 0;
    int tell = -1;                           // a descriptor that is told the temporaries, for when the process is to end
};
static Box B;
static void made_temp (const std::string& t)
{
    B.temps.push_back (t);
    if (B.tell >= 0) { std::string l = t + "\n"; if (syscall (SYS_write, B.tell, l.data (), l.size ()) < 0) abort (); }
}
struct Off { bool was; Off () : was (B.on) { B.on = false; } ~Off () { B.on = was; } };
template <class F> static F real (const char *name) { return (F) dlsym (RTLD_NEXT, name); }
#define RL(name, ...) using T_ = __VA_ARGS__; static T_ f; if (!f) f = real<T_> (#name)
static bool under (const std::string& dir, const std::string& p) { return !dir.empty () && (p == dir || p.compare (0, dir.size () + 1, dir + "/") == 0); }
// where the call would act: symbolic links of the directories resolved, of the last component on demand
static std::string target_of (int dirfd, const char *path, bool follow)
{
    std::string p = path;
    if (p.empty ()) return "";
    if (p[0] != '/')
    {
        char b[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (!getcwd (b, sizeof b)) return ""; p = std::string (b) + "/" + p; }
        else
        {
            ssize_t k = readlink (strf ("/proc/self/fd/%d", dirfd).c_str (), b, sizeof b - 1);
            if (k <= 0) return "";
            p = std::string (b, k) + "/" + p;
        }
    }
    for (int hops = 0; hops < 40; hops++)
    {
        while (p.size () > 1 && p.back () == '/') p.pop_back ();
        size_t cut = p.rfind ('/');
        std::string dir = p.substr (0, cut ? cut : 1), last = p.substr (cut + 1);
        char b[PATH_MAX];
        std::string rd = realpath (dir.c_str (), b) ? b : dir;
        if (last == "..") { rd = rd.substr (0, rd.rfind ('/')); return rd.empty () ? "/" : rd; }
        if (last == ".") return rd;
        p = (rd == "/" ? "" : rd) + "/" + last;
        if (!follow) return p;
        ssize_t k = readlink (p.c_str (), b, sizeof b - 1);
        if (k <= 0) return p;
        std::string to (b, k);
        p = to[0] == '/' ? to : (rd == "/" ? "" : rd) + "/" + to;
    }
    return p;
}
// may the call go on?  'creates': it makes the name
static bool allow (const char *call, int dirfd, const char *path, bool follow, bool creates)
{
    if (!B.on || !path) return true;
    Off off;
    B.calls++;
    auto t = target_of (dirfd, path, follow);
    if (t.empty () || t == "/dev/null" || under (B.scratch, t)) return true;
    for (auto& x : B.temps) if (under (x, t)) return true;
    struct stat sb;
    if (creates && t.compare (0, 5, "/tmp/") == 0 && t.find ('/', 5) == std::string::npos && lstat (t.c_str (), &sb) != 0) { made_temp (t); return true; }
    if (B.bad.size () < 20) B.bad.push_back (std::string (call) + " " + t);
    errno = EACCES;
    return false;
}
static void look (int dirfd, const char *path)
{
    if (!B.on || !path || B.watched.empty ()) return;
    Off off;
    auto t = target_of (dirfd, path, true);
    if (under (B.watched, t) && B.watched_hits.size () < 20) B.watched_hits.push_back (t);
}
enum Do { PASS, FAIL, SHORT };
static Do meet (const char *site, bool may_cut)
{
    if (!B.on || !B.faults) return PASS;
    B.n++;
    if (B.at == 0 || (B.sticky ? B.n < B.at : B.n != B.at)) return PASS;
    if (!B.hit) B.site = site;
    B.hit = true;
    if (B.kill) _exit (7);
    if (B.cut) { if (!may_cut) B.hit = false; return may_cut ? SHORT : PASS; }
    errno = B.err;
    return FAIL;
}
static bool log_path (const char *p) { return p && (!strcmp (p, "/dev/null") || !strcmp (p, "/var/log/disir.log")); }
#define WR(fl) (((fl) & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) != 0)
static bool fd_ok (const char *call, int fd) { if (!B.on) return true; return allow (call, AT_FDCWD, strf ("/proc/self/fd/%d", fd).c_str (), true, false); }
extern "C" {
#define OPENLIKE(name) \
int name (const char *p, int fl, ...) { va_list a; va_start (a, fl); int m = va_arg (a, int); va_end (a); \
    RL (name, int (*) (const char *, int, ...)); \
    if (!log_path (p) && meet ("open", false)) return -1; \
    if (WR (fl) && !allow ("open", AT_FDCWD, p, !(fl & O_NOFOLLOW) && !((fl & O_CREAT) && (fl & O_EXCL)), fl & O_CREAT)) return -1; \
    look (AT_FDCWD, p); return f (p, fl, m); }
OPENLIKE (open)
OPENLIKE (open64)
#define OPENATLIKE(name) \
int name (int d, const char *p, int fl, ...) { va_list a; va_start (a, fl); int m = va_arg (a, int); va_end (a); \
    RL (name, int (*) (int, const char *, int, ...)); \
    if (meet ("openat", false)) return -1; \
    if (WR (fl) && !allow ("openat", d, p, !(fl & O_NOFOLLOW) && !((fl & O_CREAT) && (fl & O_EXCL)), fl & O_CREAT)) return -1; \
    look (d, p); return f (d, p, fl, m); }
OPENATLIKE (openat)
OPENATLIKE (openat64)
int creat (const char *p, mode_t m) { RL (creat, int (*) (const char *, mode_t)); if (meet ("creat", false) || !allow ("creat", AT_FDCWD, p, true, true)) return -1; return f (p, m); }
int creat64 (const char *p, mode_t m) { RL (creat64, int (*) (const char *, mode_t)); if (meet ("creat", false) || !allow ("creat", AT_FDCWD, p, true, true)) return -1; return f (p, m); }
#define FOPENLIKE(name) \
FILE *name (const char *p, const char *m) { RL (name, FILE *(*) (const char *, const char *)); \
    if (!log_path (p) && meet ("fopen", false)) return nullptr; \
    bool w = m[0] != 'r' || strchr (m, '+'); \
    if (w && !allow ("fopen", AT_FDCWD, p, true, m[0] != 'r')) return nullptr; \
    look (AT_FDCWD, p); return f (p, m); }
FOPENLIKE (fopen)
FOPENLIKE (fopen64)
FILE *fdopen (int fd, const char *m) { RL (fdopen, FILE *(*) (int, const char *)); if (meet ("fdopen", false)) return nullptr; return f (fd, m); }
#define PATH1(name, follow, creates) \
int name (const char *p) { RL (name, int (*) (const char *)); if (meet (#name, false) || !allow (#name, AT_FDCWD, p, follow, creates)) return -1; return f (p); }
PATH1 (unlink, false, false)
PATH1 (remove, false, false)
PATH1 (rmdir, false, false)
int mkdir (const char *p, mode_t m) { RL (mkdir, int (*) (const char *, mode_t)); struct stat sb; if (meet ("mkdir", false)) return -1; { Off o; if (lstat (p, &sb) == 0) { errno = EEXIST; return -1; } } if (!allow ("mkdir", AT_FDCWD, p, false, true)) return -1; return f (p, m); }
int mkdirat (int d, const char *p, mode_t m) { RL (mkdirat, int (*) (int, const char *, mode_t)); if (meet ("mkdirat", false) || !allow ("mkdirat", d, p, false, true)) return -1; return f (d, p, m); }
int unlinkat (int d, const char *p, int fl) { RL (unlinkat, int (*) (int, const char *, int)); if (meet ("unlinkat", false) || !allow ("unlinkat", d, p, false, false)) return -1; return f (d, p, fl); }
int rename (const char *a, const char *b) { RL (rename, int (*) (const char *, const char *)); if (meet ("rename", false) || !allow ("rename", AT_FDCWD, a, false, false) || !allow ("rename", AT_FDCWD, b, false, true)) return -1; return f (a, b); }
int renameat (int c, const char *a, int d, const char *b) { RL (renameat, int (*) (int, const char *, int, const char *)); if (meet ("renameat", false) || !allow ("renameat", c, a, false, false) || !allow ("renameat", d, b, false, true)) return -1; return f (c, a, d, b); }
int link (const char *a, const char *b) { RL (link, int (*) (const char *, const char *)); if (meet ("link", false) || !allow ("link", AT_FDCWD, b, false, true)) return -1; return f (a, b); }
int linkat (int c, const char *a, int d, const char *b, int fl) { RL (linkat, int (*) (int, const char *, int, const char *, int)); if (meet ("linkat", false) || !allow ("linkat", d, b, false, true)) return -1; return f (c, a, d, b, fl); }
int symlink (const char *a, const char *b) { RL (symlink, int (*) (const char *, const char *)); if (meet ("symlink", false) || !allow ("symlink", AT_FDCWD, b, false, true)) return -1; return f (a, b); }
int symlinkat (const char *a, int d, const char *b) { RL (symlinkat, int (*) (const char *, int, const char *)); if (meet ("symlinkat", false) || !allow ("symlinkat", d, b, false, true)) return -1; return f (a, d, b); }
int truncate (const char *p, off_t n) { RL (truncate, int (*) (const char *, off_t)); if (meet ("truncate", false) || !allow ("truncate", AT_FDCWD, p, true, false)) return -1; return f (p, n); }
int truncate64 (const char *p, off64_t n) { RL (truncate64, int (*) (const char *, off64_t)); if (meet ("truncate", false) || !allow ("truncate", AT_FDCWD, p, true, false)) return -1; return f (p, n); }
int chmod (const char *p, mode_t m) { RL (chmod, int (*) (const char *, mode_t)); if (meet ("chmod", false) || !allow ("chmod", AT_FDCWD, p, true, false)) return -1; return f (p, m); }
int lchmod (const char *p, mode_t m) { RL (lchmod, int (*) (const char *, mode_t)); if (!allow ("lchmod", AT_FDCWD, p, false, false)) return -1; return f (p, m); }
int fchmod (int fd, mode_t m) { RL (fchmod, int (*) (int, mode_t)); if (meet ("fchmod", false) || !fd_ok ("fchmod", fd)) return -1; return f (fd, m); }
int fchmodat (int d, const char *p, mode_t m, int fl) { RL (fchmodat, int (*) (int, const char *, mode_t, int)); if (meet ("fchmodat", false) || !allow ("fchmodat", d, p, true, false)) return -1; return f (d, p, m, fl); }
int chown (const char *p, uid_t u, gid_t g) { RL (chown, int (*) (const char *, uid_t, gid_t)); if (!allow ("chown", AT_FDCWD, p, true, false)) return -1; return f (p, u, g); }
int lchown (const char *p, uid_t u, gid_t g) { RL (lchown, int (*) (const char *, uid_t, gid_t)); if (!allow ("lchown", AT_FDCWD, p, false, false)) return -1; return f (p, u, g); }
int fchown (int fd, uid_t u, gid_t g) { RL (fchown, int (*) (int, uid_t, gid_t)); if (!fd_ok ("fchown", fd)) return -1; return f (fd, u, g); }
int fchownat (int d, const char *p, uid_t u, gid_t g, int fl) { RL (fchownat, int (*) (int, const char *, uid_t, gid_t, int)); if (!allow ("fchownat", d, p, false, false)) return -1; return f (d, p, u, g, fl); }
int mknod (const char *p, mode_t m, dev_t v) { RL (mknod, int (*) (const char *, mode_t, dev_t)); if (!allow ("mknod", AT_FDCWD, p, false, true)) return -1; return f (p, m, v); }
int mknodat (int d, const char *p, mode_t m, dev_t v) { RL (mknodat, int (*) (int, const char *, mode_t, dev_t)); if (!allow ("mknodat", d, p, false, true)) return -1; return f (d, p, m, v); }
int mkfifo (const char *p, mode_t m) { RL (mkfifo, int (*) (const char *, mode_t)); if (!allow ("mkfifo", AT_FDCWD, p, false, true)) return -1; return f (p, m); }
int mkfifoat (int d, const char *p, mode_t m) { RL (mkfifoat, int (*) (int, const char *, mode_t)); if (!allow ("mkfifoat", d, p, false, true)) return -1; return f (d, p, m); }
int utime (const char *p, const struct utimbuf *t) { RL (utime, int (*) (const char *, const struct utimbuf *)); if (!allow ("utime", AT_FDCWD, p, true, false)) return -1; return f (p, t); }
int utimes (const char *p, const struct timeval *t) { RL (utimes, int (*) (const char *, const struct timeval *)); if (!allow ("utimes", AT_FDCWD, p, true, false)) return -1; return f (p, t); }
int lutimes (const char *p, const struct timeval *t) { RL (lutimes, int (*) (const char *, const struct timeval *)); if (!allow ("lutimes", AT_FDCWD, p, false, false)) return -1; return f (p, t); }
int utimensat (int d, const char *p, const struct timespec *t, int fl) { RL (utimensat, int (*) (int, const char *, const struct timespec *, int)); if (p && !allow ("utimensat", d, p, !(fl & AT_SYMLINK_NOFOLLOW), false)) return -1; return f (d, p, t, fl); }
int setxattr (const char *p, const char *n, const void *v, size_t s, int fl) { RL (setxattr, int (*) (const char *, const char *, const void *, size_t, int)); if (!allow ("setxattr", AT_FDCWD, p, true, false)) return -1; return f (p, n, v, s, fl); }
int lsetxattr (const char *p, const char *n, const void *v, size_t s, int fl) { RL (lsetxattr, int (*) (const char *, const char *, const void *, size_t, int)); if (!allow ("lsetxattr", AT_FDCWD, p, false, false)) return -1; return f (p, n, v, s, fl); }
// (the template is filled in only by the call: the name is recorded afterwards, the place before)
#define TEMPLIKE(name, ret, none) \
ret name (char *t) { RL (name, ret (*) (char *)); if (meet (#name, false)) return none; if (!B.on) return f (t); \
    { Off o; auto where = target_of (AT_FDCWD, t, false); if (!under (B.scratch, where) && !(where.compare (0, 5, "/tmp/") == 0 && where.find ('/', 5) == std::string::npos)) { bool in = false; for (auto& x : B.temps) in = in || under (x, where); if (!in) { B.bad.push_back (std::string (#name " ") + where); errno = EACCES; return none; } } } \
    ret r = f (t); if (r != none) { Off o; auto made = target_of (AT_FDCWD, t, false); if (!under (B.scratch, made)) made_temp (made); } return r; }
TEMPLIKE (mkstemp, int, -1)
TEMPLIKE (mkstemp64, int, -1)
TEMPLIKE (mkdtemp, char *, ((char *) nullptr))
int mkostemp (char *t, int fl) { RL (mkostemp, int (*) (char *, int)); if (meet ("mkstemp", false)) return -1; int r = f (t, fl); if (B.on && r >= 0) { Off o; auto made = target_of (AT_FDCWD, t, false); if (!under (B.scratch, made)) made_temp (made); } return r; }
ssize_t write (int fd, const void *b, size_t n) { RL (write, ssize_t (*) (int, const void *, size_t)); auto d = meet ("write", n > 1); return d == FAIL ? -1 : f (fd, b, d == SHORT ? n / 2 : n); }
ssize_t writev (int fd, const struct iovec *v, int n) { RL (writev, ssize_t (*) (int, const struct iovec *, int)); auto d = meet ("writev", false); return d == FAIL ? -1 : f (fd, v, n); }
ssize_t pwrite (int fd, const void *b, size_t n, off_t o) { RL (pwrite, ssize_t (*) (int, const void *, size_t, off_t)); auto d = meet ("pwrite", n > 1); return d == FAIL ? -1 : f (fd, b, d == SHORT ? n / 2 : n, o); }
ssize_t read (int fd, void *b, size_t n) { RL (read, ssize_t (*) (int, void *, size_t)); auto d = meet ("read", n > 1); return d == FAIL ? -1 : f (fd, b, d == SHORT ? (n + 6) / 7 : n); }
int fsync (int fd) { RL (fsync, int (*) (int)); return meet ("fsync", false) ? -1 : f (fd); }
int fdatasync (int fd) { RL (fdatasync, int (*) (int)); return meet ("fdatasync", false) ? -1 : f (fd); }
int ftruncate (int fd, off_t n) { RL (ftruncate, int (*) (int, off_t)); return meet ("ftruncate", false) ? -1 : f (fd, n); }
int close (int fd) { RL (close, int (*) (int)); auto d = meet ("close", false); int e = errno, r = f (fd); if (d) errno = e; return d ? -1 : r; }
int fclose (FILE *p) { RL (fclose, int (*) (FILE *)); if (p == g_log_file) { g_log_file = nullptr; return f (p); } auto d = meet ("fclose", false); int e = errno, r = f (p); if (d) errno = e; return d ? EOF : r; }
int fflush (FILE *p) { RL (fflush, int (*) (FILE *)); if (p && p == g_log_file) return f (p); return meet ("fflush", false) ? EOF : f (p); }
size_t fwrite (const void *b, size_t s, size_t n, FILE *p) { RL (fwrite, size_t (*) (const void *, size_t, size_t, FILE *)); if (p == g_log_file || p == stderr || p == stdout) return f (b, s, n, p); auto d = meet ("fwrite", n > 1); return d == FAIL ? 0 : f (b, s, d == SHORT ? n / 2 : n, p); }
size_t fread (void *b, size_t s, size_t n, FILE *p) { RL (fread, size_t (*) (void *, size_t, size_t, FILE *)); if (B.on && B.faults && meet ("fread", false) == FAIL) { if (p) p->_flags |= 0x20; /* the error indication of the real one */ return 0; } return f (b, s, n, p); }
DIR *opendir (const char *p) { RL (opendir, DIR *(*) (const char *)); return meet ("opendir", false) ? nullptr : f (p); }
int stat (const char *p, struct stat *s) { RL (stat, int (*) (const char *, struct stat *)); return meet ("stat", false) ? -1 : f (p, s); }
int lstat (const char *p, struct stat *s) { RL (lstat, int (*) (const char *, struct stat *)); return meet ("lstat", false) ? -1 : f (p, s); }
int fstat (int fd, struct stat *s) { RL (fstat, int (*) (int, struct stat *)); return meet ("fstat", false) ? -1 : f (fd, s); }
int access (const char *p, int m) { RL (access, int (*) (const char *, int)); return meet ("access", false) ? -1 : f (p, m); }
}
static void box_reset () { B.bad.clear (); B.bad.shrink_to_fit (); B.temps.clear (); B.temps.shrink_to_fit (); B.watched_hits.clear (); B.watched_hits.shrink_to_fit (); B.faults = false; B.at = 0; B.cut = B.kill = B.hit = B.sticky = false; B.watched.clear (); B.watched.shrink_to_fit (); }
static void remove_all (const std::string& path)         // a recorded temporary directly below /tmp, or below it
{
    if (path.compare (0, 5, "/tmp/") != 0 || path.size () <= 5 || path.find ("/..") != std::string::npos) return;
    struct stat sb;
    if (lstat (path.c_str (), &sb)) return;
    if (S_ISDIR (sb.st_mode))
    {
        chmod (path.c_str (), 0700);
        if (DIR *d = opendir (path.c_str ()))
        {
            std::vector<std::string> names;
            while (struct dirent *e = readdir (d)) if (strcmp (e->d_name, ".") && strcmp (e->d_name, "..")) names.push_back (e->d_name);
            closedir (d);
            for (auto& n : names) remove_all (path + "/" + n);
        }
        rmdir (path.c_str ());
    }
    else unlink (path.c_str ());
}
// runs library code behind the boundary
template <class F> static auto boxed (F fn) -> decltype (fn ())
{
    struct Guard { Guard () { B.on = true; B.n = 0; B.hit = false; } ~Guard () { B.on = false; } } g;
    return fn ();
}
// after every handle has been released
static void no_leftovers (Case& c, const char *what, bool may_remain = false)
{
    Off off;
    for (auto& b : B.bad) { c.violation (strf ("outside:%s", b.substr (0, b.find (' ')).c_str ()), "%s: %s", what, b.c_str ()); break; }
    for (auto& t : B.temps)
    {
        struct stat sb;
        if (lstat (t.c_str (), &sb) == 0)
        {
            if (!may_remain) c.violation ("leftover", "%s left %s behind", what, t.c_str ());
            remove_all (t);
        }
    }
    c.count ("temporaries", (long) B.temps.size ());
    std::vector<std::string> ().swap (B.temps);
    std::vector<std::string> ().swap (B.bad);
}

// ---- containers -----------------------------------------------------------------------------------------
struct Member { std::string name, data, link; int type = AE_IFREG; int mode = 0644; bool hard = false; long claimed = -1; };
static bool unpack (const std::string& bytes, std::vector<Member>& out)
{
    struct archive *a = archive_read_new ();
    archive_read_support_format_tar (a);
    archive_read_support_filter_xz (a);
    bool ok = archive_read_open_memory (a, bytes.data (), bytes.size ()) == ARCHIVE_OK;
    struct archive_entry *e;
    int ret = ARCHIVE_FATAL;
    while (ok && (ret = archive_read_next_header (a, &e)) == ARCHIVE_OK)
    {
        Member m;
        m.name = archive_entry_pathname (e) ? archive_entry_pathname (e) : "";
        m.type = archive_entry_filetype (e);
        m.mode = archive_entry_perm (e);
        if (archive_entry_hardlink (e)) { m.hard = true; m.link = archive_entry_hardlink (e); }
        else if (archive_entry_symlink (e)) m.link = archive_entry_symlink (e);
        char buf[8192];
        la_ssize_t n;
        while ((n = archive_read_data (a, buf, sizeof buf)) > 0) m.data.append (buf, n);
        if (n < 0) ok = false;
        out.push_back (m);
    }
    if (ret != ARCHIVE_EOF) ok = false;
    archive_read_free (a);
    return ok;
}
enum Pack { XZ, PLAIN, GZIP, XZ_PAX, XZ_GNU };
static la_ssize_t sink (struct archive *, void *to, const void *b, size_t n) { ((std::string *) to)->append ((const char *) b, n); return (la_ssize_t) n; }
static std::string pack (const std::vector<Member>& ms, Pack how = XZ)
{
    std::string out;
    struct archive *a = archive_write_new ();
    if (how == XZ_PAX) archive_write_set_format_pax (a);
    else if (how == XZ_GNU) archive_write_set_format_gnutar (a);
    else archive_write_set_format_ustar (a);
    if (how == GZIP) archive_write_add_filter_gzip (a);
    else if (how != PLAIN) { archive_write_add_filter_xz (a); archive_write_set_filter_option (a, "xz", "compression-level", "0"); }
    archive_write_set_bytes_in_last_block (a, 1);
    archive_write_open (a, &out, nullptr, sink, nullptr);
    for (auto& m : ms)
    {
        struct archive_entry *e = archive_entry_new ();
        archive_entry_set_pathname (e, m.name.c_str ());
        archive_entry_set_filetype (e, m.type);
        archive_entry_set_perm (e, m.mode);
        archive_entry_set_mtime (e, 1, 0);
        if (!m.link.empty ()) { if (m.hard) archive_entry_set_hardlink (e, m.link.c_str ()); else archive_entry_set_symlink (e, m.link.c_str ()); }
        long size = m.type == AE_IFREG && m.link.empty () ? (m.claimed >= 0 ? m.claimed : (long) m.data.size ()) : 0;
        archive_entry_set_size (e, size);
        if (archive_write_header (a, e) >= ARCHIVE_WARN && size) archive_write_data (a, m.data.data (), std::min<size_t> (m.data.size (), (size_t) size));
        archive_entry_free (e);
    }
    archive_write_close (a);
    archive_write_free (a);
    return out;
}

// ---- installations --------------------------------------------------------------------------------------
typedef std::map<std::string, std::string> Snap;
static Node grouped (const Node& n)
{
    Node r = n;
    for (auto& k : r.kids) k = grouped (k);
    std::stable_sort (r.kids.begin (), r.kids.end (), [] (const Node& a, const Node& b) { return a.name < b.name; });
    return r;
}
static bool same (const MConfig& a, const MConfig& b) { return a.ver == b.ver && grouped (a.root) == grouped (b.root); }
struct Kind { MMold m; struct disir_mold *mold = nullptr; };          // a mold of its own
struct Group
{
    std::string name, cdir, mdir, ext; PluginKind kind = JSON_PLUGIN;
    std::map<std::string, int> molds;               // entry id -> index of its mold
    std::map<std::string, MConfig> installed;
};
struct Site
{
    Inst in; std::string dir; std::vector<Group> groups;
    Group *find (const std::string& n) { for (auto& g : groups) if (g.name == n) return &g; return nullptr; }
    Group& add (Case& c, const std::string& name, PluginKind kind)
    {
        groups.emplace_back ();
        Group& g = groups.back ();
        g.name = name; g.kind = kind; g.ext = kind == JSON_PLUGIN ? ".json" : ".toml";
        g.cdir = dir + strf ("/c%zu", groups.size ()); g.mdir = dir + strf ("/m%zu", groups.size ());
        mkdirs (g.cdir); mkdirs (g.mdir);
        if (!in.plugin (c, kind, "io", name.c_str (), g.cdir, g.mdir)) c.failed = true;
        return g;
    }
};
static const char *GROUPS[] = {"grp", "g.one", "two words", "A-b_c", "d\xc3\xb8rslag", "quo\"te", "0", "entries.toml.d", "x=y", "back\\slash", "#hash", "[group]", "groups", "id", "a'b", "g.one.two", "metadata.toml", "-", "UPPER", "a.b\"c", "tab\there"};
static std::string entry_id (Rng& r, int i)
{
    static const char *ids[] = {"e", "dir/e", "dir/f", "a/b/c/d", "metadata", "entries", "x_y/z0", "group", "id", "backend", "very_long_name_of_an_entry_that_goes_on_and_on_for_a_long_while_beyond_what_a_short_header_field_holds_0123456789/and_then_some_more_of_it_in_another_segment_that_is_long_as_well"};
    (void) i;
    return r.pick ({std::string (ids[r.below (11)]), std::string (ids[r.below (4)]), strf ("n%d", (int) r.below (20)), strf ("d%d/n%d", (int) r.below (3), (int) r.below (6))});
}
// makes one text of a configuration long enough for its entry to exceed 64 KB
static bool inflate (Rng& r, Node& n, long size)
{
    std::vector<Node *> all {&n}, texts;
    for (size_t i = 0; i < all.size (); i++)
        for (auto& k : all[i]->kids)
        {
            if (k.section) all.push_back (&k);
            else if (k.v.type == DISIR_VALUE_TYPE_STRING) texts.push_back (&k);
        }
    if (texts.empty ()) return false;
    auto& s = texts[r.below (texts.size ())]->v.s;
    s.clear ();
    while ((long) s.size () < size) s += strf ("%lx ", (long) r.below (1L << 40));
    s += "end";
    return true;
}
static MConfig config_for (Rng& r, const MMold& m, const GenOpt& o, int at_mold_version = 2)
{
    MConfig x;
    auto vs = breakpoints (m);
    x.ver = at_mold_version && r.chance (at_mold_version, 3) ? m.ver : r.pick (vs);
    x.root = gen_config (r, m, x.ver, o);
    x.root.section = true;
    return x;
}
static bool write_mold (Case& c, Site& s, Group& g, const std::string& id, struct disir_mold *m) { return EXPECT_OK (c, disir_mold_write (s.in.p, g.name.c_str (), id.c_str (), m)); }
static bool install (Case& c, Site& s, Group& g, const std::string& id, struct disir_mold *m, const MConfig& x)
{
    auto *cfg = build_config (c, m, x);
    if (!cfg) return false;
    bool ok = EXPECT_OK (c, disir_config_write (s.in.p, g.name.c_str (), id.c_str (), cfg));
    disir_config_finished (&cfg);
    if (ok) g.installed[id] = x;
    return ok;
}
static bool read_back (Case& c, Site& s, const std::string& group, const std::string& id, MConfig& out, enum disir_status *st = nullptr)
{
    struct disir_config *cfg = nullptr;
    auto x = disir_config_read (s.in.p, group.c_str (), id.c_str (), nullptr, &cfg);
    if (st) *st = x;
    bool ok = x == DISIR_STATUS_OK && cfg && dump_config (c, cfg, out);
    if (cfg) disir_config_finished (&cfg);
    return ok;
}
// the report, or the listing, of an import
struct Listed { std::string id, group, version, info; bool has_info; enum disir_status st; };
static bool listing (Case& c, struct disir_import *im, int n, std::vector<Listed>& out)
{
    for (int i = 0; i < n; i++)
    {
        const char *e = nullptr, *g = nullptr, *v = nullptr, *info = nullptr;
        auto st = disir_import_entry_status (im, i, &e, &g, &v, &info);
        if (!e || !g || !v) { c.violation ("listing:null", "entry %d of the import is without id, group or version (%s)", i, sname (st)); return false; }
        out.push_back ({e, g, v, info ? info : "", info != nullptr, st});
    }
    return true;
}
static std::string key_of (const std::string& g, const std::string& e) { return g + '\0' + e; }
static int open_fds () { int n = 0; if (DIR *d = opendir ("/proc/self/fd")) { while (readdir (d)) n++; closedir (d); } return n; }
static void setup_box () { B.scratch = scratch_dir (); char b[PATH_MAX]; if (realpath (scratch_dir ().c_str (), b)) B.scratch = b; }
// ---- an unprivileged user for a while ----------------------------------------------------------------------
#include <sys/prctl.h>
#include <grp.h>
struct Unprivileged
{
    bool on = false;
    Unprivileged ()
    {
        if (getuid () != 0) return;
        if (chown (scratch_dir ().c_str (), 65534, 65534)) return;
        if (setresgid (65534, 65534, 0)) return;
        if (setresuid (65534, 65534, 0)) { if (setresgid (0, 0, 0)) abort (); return; }
        prctl (PR_SET_DUMPABLE, 1);
        on = true;
    }
    ~Unprivileged () { if (on && (setresuid (0, 0, 0) || setresgid (0, 0, 0))) abort (); }
};
// the text a configuration has in an archive
static bool text_of_config (Case& c, PluginKind kind, struct disir_instance *in, struct disir_config *cfg, std::string& out)
{
    Mem m;
    if (!EXPECT_OK (c, (kind == JSON_PLUGIN ? dio_json_config_fd_write : dio_toml_serialize_config) (in, cfg, m.f))) return false;
    out = m.text ();
    return true;
}
static std::string toml_string (const std::string& s)
{
    std::string o = "\"";
    for (char ch : s) { if (ch == '"' || ch == '\\') o += '\\'; if (ch == '\n') o += "\\n"; else if (ch == '\t') o += "\\t"; else o += ch; }
    return o + "\"";
}
