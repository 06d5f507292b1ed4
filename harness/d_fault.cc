// C21: a store operation the system refuses or cuts short says so, and leaves the previous entry.
#include "store.inc"
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
#include <stdarg.h>
const char *PROPERTY = "C21";
const char *RULE = "one store operation under one fault: a system call made to fail or cut short, a file size limit, the process ended before a system call, an obstacle in the file system; distinct by operation, fault and state; non-trivial: the fault was delivered";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"faults", 4000}, {"failed_as_told", 3000}, {"absorbed", 1}, {"short_writes", 100}, {"size_limits", 1000}, {"kills", 1000}, {"obstacles", 300},
    {"old_entry_kept", 800}, {"killed_old", 300}, {"killed_new", 10}};
long driver_directed () { return 0; }

// ---- faults at the system call boundary ------------------------------------------------------------------
static struct { bool on; long n, at; int err; bool cut, kill, hit; const char *site; std::map<std::string, long> *seen; } F;
// one intercepted call: what to do about it
enum Do { PASS, FAIL, SHORT };
static Do meet (const char *site, bool may_cut)
{
    if (!F.on) return PASS;
    F.n++;
    if (F.n != F.at) return PASS;
    F.hit = true;
    F.site = site;
    if (F.kill) _exit (7);
    if (F.cut) { if (!may_cut) F.hit = false; return may_cut ? SHORT : PASS; }
    errno = F.err;
    return FAIL;
}
extern FILE *(*g_fopen_hook) (const char *path, const char *mode);
extern thread_local FILE *g_log_file;
#define REAL(f) __real_##f
extern "C" {
int REAL (open) (const char *, int, ...); int REAL (openat) (int, const char *, int, ...); FILE *REAL (fdopen) (int, const char *);
ssize_t REAL (write) (int, const void *, size_t); ssize_t REAL (pwrite) (int, const void *, size_t, off_t); ssize_t REAL (read) (int, void *, size_t);
int REAL (fsync) (int); int REAL (fdatasync) (int); int REAL (fclose) (FILE *); int REAL (fflush) (FILE *); size_t REAL (fwrite) (const void *, size_t, size_t, FILE *);
int REAL (rename) (const char *, const char *); int REAL (mkdir) (const char *, mode_t); int REAL (stat) (const char *, struct stat *); int REAL (lstat) (const char *, struct stat *); int REAL (fstat) (int, struct stat *);
int REAL (remove) (const char *); int REAL (unlink) (const char *); int REAL (access) (const char *, int); char *REAL (realpath) (const char *, char *); int REAL (fchmod) (int, mode_t);
DIR *REAL (opendir) (const char *); int REAL (close) (int); int REAL (ftruncate) (int, off_t); int REAL (mkstemp) (char *); FILE *REAL (fopen) (const char *, const char *); int REAL (link) (const char *, const char *);
int __wrap_open (const char *p, int fl, ...) { va_list a; va_start (a, fl); int m = va_arg (a, int); va_end (a); return meet ("open", false) ? -1 : REAL (open) (p, fl, m); }
int __wrap_openat (int d, const char *p, int fl, ...) { va_list a; va_start (a, fl); int m = va_arg (a, int); va_end (a); return meet ("openat", false) ? -1 : REAL (openat) (d, p, fl, m); }
FILE *__wrap_fdopen (int fd, const char *m) { return meet ("fdopen", false) ? nullptr : REAL (fdopen) (fd, m); }
ssize_t __wrap_write (int fd, const void *b, size_t n) { auto d = meet ("write", n > 1); return d == FAIL ? -1 : REAL (write) (fd, b, d == SHORT ? n / 2 : n); }
ssize_t __wrap_pwrite (int fd, const void *b, size_t n, off_t o) { auto d = meet ("pwrite", n > 1); return d == FAIL ? -1 : REAL (pwrite) (fd, b, d == SHORT ? n / 2 : n, o); }
ssize_t __wrap_read (int fd, void *b, size_t n) { auto d = meet ("read", n > 1); return d == FAIL ? -1 : REAL (read) (fd, b, d == SHORT ? (n + 6) / 7 : n); }
int __wrap_fsync (int fd) { return meet ("fsync", false) ? -1 : REAL (fsync) (fd); }
int __wrap_fdatasync (int fd) { return meet ("fdatasync", false) ? -1 : REAL (fdatasync) (fd); }
int __wrap_fclose (FILE *f) { if (f == g_log_file) { g_log_file = nullptr; return REAL (fclose) (f); } auto d = meet ("fclose", false); int e = errno, r = REAL (fclose) (f); if (d) errno = e; return d ? EOF : r; }
int __wrap_fflush (FILE *f) { if (f && f == g_log_file) return REAL (fflush) (f); return meet ("fflush", false) ? EOF : REAL (fflush) (f); }
size_t __wrap_fwrite (const void *b, size_t s, size_t n, FILE *f) { auto d = meet ("fwrite", n > 1); return d == FAIL ? 0 : REAL (fwrite) (b, s, d == SHORT ? n / 2 : n, f); }
int __wrap_rename (const char *a, const char *b) { return meet ("rename", false) ? -1 : REAL (rename) (a, b); }
int __wrap_link (const char *a, const char *b) { return meet ("link", false) ? -1 : REAL (link) (a, b); }
int __wrap_mkdir (const char *p, mode_t m) { return meet ("mkdir", false) ? -1 : REAL (mkdir) (p, m); }
int __wrap_stat (const char *p, struct stat *s) { return meet ("stat", false) ? -1 : REAL (stat) (p, s); }
int __wrap_lstat (const char *p, struct stat *s) { return meet ("lstat", false) ? -1 : REAL (lstat) (p, s); }
int __wrap_fstat (int fd, struct stat *s) { return meet ("fstat", false) ? -1 : REAL (fstat) (fd, s); }
int __wrap_remove (const char *p) { return meet ("remove", false) ? -1 : REAL (remove) (p); }
int __wrap_unlink (const char *p) { return meet ("unlink", false) ? -1 : REAL (unlink) (p); }
int __wrap_access (const char *p, int m) { return meet ("access", false) ? -1 : REAL (access) (p, m); }
char *__wrap_realpath (const char *p, char *o) { return meet ("realpath", false) ? nullptr : REAL (realpath) (p, o); }
int __wrap_fchmod (int fd, mode_t m) { return meet ("fchmod", false) ? -1 : REAL (fchmod) (fd, m); }
DIR *__wrap_opendir (const char *p) { return meet ("opendir", false) ? nullptr : REAL (opendir) (p); }
int __wrap_close (int fd) { auto d = meet ("close", false); int e = errno, r = REAL (close) (fd); if (d) errno = e; return d ? -1 : r; }
int __wrap_ftruncate (int fd, off_t n) { return meet ("ftruncate", false) ? -1 : REAL (ftruncate) (fd, n); }
int __wrap_mkstemp (char *t) { return meet ("mkstemp", false) ? -1 : REAL (mkstemp) (t); }
}
static FILE *hook (const char *p, const char *m) { return meet ("fopen", false) ? nullptr : REAL (fopen) (p, m); }
void driver_setup () { g_fopen_hook = hook; signal (SIGXFSZ, SIG_IGN); }

// ---- the store under test -----------------------------------------------------------------------------------
typedef std::map<std::string, std::string> Snap;
static Node grouped (const Node& n)
{
    Node r = n;
    for (auto& k : r.kids) k = grouped (k);
    std::stable_sort (r.kids.begin (), r.kids.end (), [] (const Node& a, const Node& b) { return a.name < b.name; });
    return r;
}
enum Op { WRITE_NEW, WRITE_OVER, WRITE_DEEP, REMOVE, READ, READ_GIVEN, QUERY, MOLD_NEW, MOLD_OVER, MOLD_READ, OPS };
static const char *OPNAME[] = {"write-new", "write-over", "write-deep", "remove", "read", "read-given", "query", "mold-write-new", "mold-write-over", "mold-read"};
struct World
{
    Case& c; Rng& r; Inst in; std::string base, cdir, mdir, ext; PluginKind kind;
    MMold mm[2]; struct disir_mold *mold[2] = {nullptr, nullptr};
    MConfig old, neu, other; struct disir_config *cneu = nullptr;
    Snap start; std::string oldtext, neutext; bool recording = false; long calls = 0;
    explicit World (Case& x) : c (x), r (x.r) {}
    Snap snap () const { Snap s; snapshot (base, "", s); return s; }
};
static std::string id_of (Op op)
{
    switch (op)
    {
    case WRITE_NEW: return "dir/fresh"; case WRITE_DEEP: return "one/two/three/fresh"; case MOLD_NEW: return "new/deep/mold"; case MOLD_OVER: return "dir/entry"; case MOLD_READ: return "dir/entry";
    default: return "dir/entry";
    }
}
static std::string file_of (World& w, Op op) { return op == MOLD_NEW || op == MOLD_OVER ? "m/" + id_of (op) + ".json" : "c/" + id_of (op) + w.ext; }
static bool writes (Op op) { return op == WRITE_NEW || op == WRITE_OVER || op == WRITE_DEEP || op == MOLD_NEW || op == MOLD_OVER; }
static void restore (World& w)
{
    // back to the starting state, touching only what differs
    auto now = w.snap ();
    for (auto it = now.rbegin (); it != now.rend (); ++it)
    {
        auto f = w.start.find (it->first);
        if (f == w.start.end ()) wipe (w.base + "/" + (it->first.back () == '/' ? it->first.substr (0, it->first.size () - 1) : it->first));
    }
    for (auto& e : w.start)
    {
        auto f = now.find (e.first);
        if (f != now.end () && f->second == e.second) continue;
        auto p = w.base + "/" + e.first;
        if (e.first.back () == '/') mkdirs (p.substr (0, p.size () - 1)); else spill (p, e.second);
    }
}
static bool same_config (Case& c, struct disir_config *cfg, const MConfig& want)
{
    MConfig got;
    return cfg && dump_config (c, cfg, got) && got.ver == want.ver && grouped (got.root) == grouped (want.root);
}
static int fds () { int n = 0; if (DIR *d = opendir ("/proc/self/fd")) { while (readdir (d)) n++; closedir (d); } return n; }
struct Out { enum disir_status st; bool right; std::string err; };
// performs the operation; 'right': what a success has to deliver was delivered
static Out perform (World& w, Op op)
{
    Out o {DISIR_STATUS_OK, true, ""};
    auto id = id_of (op);
    struct disir_config *cfg = nullptr;
    struct disir_mold *m = nullptr;
    disir_error_clear (w.in.p);
    F.on = true;
    F.n = 0;
    switch (op)
    {
    case WRITE_NEW: case WRITE_OVER: case WRITE_DEEP: o.st = disir_config_write (w.in.p, "grp", id.c_str (), w.cneu); break;
    case REMOVE: o.st = disir_config_remove (w.in.p, "grp", id.c_str ()); break;
    case READ: o.st = disir_config_read (w.in.p, "grp", id.c_str (), nullptr, &cfg); break;
    case READ_GIVEN: o.st = disir_config_read (w.in.p, "grp", id.c_str (), w.mold[0], &cfg); break;
    case QUERY: o.st = disir_config_query (w.in.p, "grp", id.c_str (), nullptr); break;
    case MOLD_NEW: case MOLD_OVER: o.st = disir_mold_write (w.in.p, "grp", id.c_str (), w.mold[1]); break;
    case MOLD_READ: o.st = disir_mold_read (w.in.p, "grp", id.c_str (), &m); break;
    default: break;
    }
    F.on = false;
    o.err = w.in.error ();
    bool ok = o.st == DISIR_STATUS_OK;
    if (op == READ || op == READ_GIVEN)
    {
        o.right = ok && same_config (w.c, cfg, w.old);
        if (!ok && o.st != DISIR_STATUS_INVALID_CONTEXT && cfg) w.c.violation ("read:object", "a failed read left a configuration");
        if (cfg) disir_config_finished (&cfg);
    }
    else if (op == MOLD_READ)
    {
        MMold got;
        o.right = ok && m && dump_mold (w.c, m, got, {Ver {0, 0}}) && got.ver == w.mm[0].ver;
        if (o.right) { std::multiset<std::string> a, b; for (auto& k : got.kids) a.insert (k.name); for (auto& k : w.mm[0].kids) b.insert (k.name); o.right = a == b; }
        if (m) disir_mold_finished (&m);
    }
    else if (op == QUERY) o.right = o.st == DISIR_STATUS_EXISTS;
    else if (op == REMOVE) o.right = ok && access ((w.base + "/" + file_of (w, op)).c_str (), F_OK) != 0;
    else if (ok && w.recording) o.right = slurp (w.base + "/" + file_of (w, op), w.neutext) && !w.neutext.empty ();
    else if (ok) { std::string s; o.right = slurp (w.base + "/" + file_of (w, op), s) && s == w.neutext; }
    else o.right = false;
    return o;
}
// what must hold after an operation under a fault
static void after (World& w, Op op, const Out& o, const Snap& before, const std::string& what, bool leftovers_ok)
{
    Case& c = w.c;
    bool success = op == QUERY ? o.st == DISIR_STATUS_EXISTS : o.st == DISIR_STATUS_OK;
    auto now = w.snap ();
    auto file = file_of (w, op);
    if (success && !o.right) { c.violation (strf ("%s:false-success", OPNAME[op]), "%s under %s returned %s, but it did not succeed", OPNAME[op], what.c_str (), sname (o.st)); return; }
    if (!success && o.err.empty ()) { c.violation (strf ("%s:silent", OPNAME[op]), "%s under %s returned %s without an error text", OPNAME[op], what.c_str (), sname (o.st)); return; }
    c.count (success ? "absorbed" : "failed_as_told");
    for (auto& e : before)
    {
        auto it = now.find (e.first);
        bool target = e.first == file;
        if (it != now.end () && it->second == e.second) continue;
        if (target && success && (writes (op) || op == REMOVE)) continue;
        c.violation (strf ("%s:%s", OPNAME[op], target ? "old-entry" : "other-file"), "%s under %s returned %s; %s was %s", OPNAME[op], what.c_str (), sname (o.st), e.first.c_str (), it == now.end () ? "removed" : strf ("changed to %s", quote (it->second).c_str ()).c_str ());
        return;
    }
    for (auto& e : now)
    {
        if (before.count (e.first) || (success && e.first == file)) continue;
        if (e.first.back () == '/' && writes (op)) continue;           // directories made on the way
        if (leftovers_ok) continue;
        c.violation (strf ("%s:leftover", OPNAME[op]), "%s under %s returned %s and left %s", OPNAME[op], what.c_str (), sname (o.st), e.first.c_str ());
        return;
    }
    if (!success && (op == WRITE_OVER || op == REMOVE || op == MOLD_OVER))
    {
        c.count ("old_entry_kept");
        struct disir_config *cfg = nullptr;
        auto st = disir_config_read (w.in.p, "grp", "dir/entry", nullptr, &cfg);
        if (st != DISIR_STATUS_OK || !same_config (c, cfg, w.old)) c.violation (strf ("%s:old-entry", OPNAME[op]), "after %s failed under %s, the entry reads back with %s", OPNAME[op], what.c_str (), sname (st));
        if (cfg) disir_config_finished (&cfg);
    }
}
static void system_calls (World& w, Op op)
{
    Case& c = w.c;
    F.at = 0; F.kill = F.cut = false;
    w.recording = true;
    w.neutext.clear ();
    auto o = perform (w, op);
    w.recording = false;
    long calls = w.calls = F.n;
    if (!o.right) { c.violation (strf ("%s:plain", OPNAME[op]), "%s without a fault returned %s: %s", OPNAME[op], sname (o.st), o.err.c_str ()); return; }
    restore (w);
    static const int errs[] = {EACCES, ENOSPC, EIO, EMFILE, EROFS, EDQUOT, ENOMEM, EINTR};
    c.log ("%s: %ld calls", OPNAME[op], calls);
    long step = calls > 60 ? calls / 40 : 1;
    for (long n = 1; n <= calls && !c.failed; n += step == 1 ? 1 : w.r.range (1, 2 * step - 1))
        for (int k = 0; k < 3 && !c.failed; k++)
        {
            int before_fds = fds ();
            F.at = n; F.cut = k == 2; F.err = errs[w.r.below (8)]; F.hit = false; F.kill = false; F.site = "";
            c.log ("%s: call %ld of %ld %s", OPNAME[op], n, calls, k == 2 ? "cut short" : strerror (F.err));
            o = perform (w, op);
            F.at = 0;
            if (F.hit && strcmp (F.site, "unlink") != 0)
            {
                c.count ("faults");
                if (k == 2) c.count ("short_writes"); else c.count (strf ("fault:%s", F.site).c_str ());
                c.nontrivial (strf ("%d %s %ld %s %d %s", op, OPNAME[op], n, F.site, k == 2 ? -1 : F.err, w.oldtext.c_str ()));
                after (w, op, o, w.start, strf ("%s %s (call %ld)", F.site, k == 2 ? "cut short" : strerror (F.err), n), false);
                if (fds () != before_fds) c.violation (strf ("%s:descriptor", OPNAME[op]), "%s under %s %s left %d descriptors open", OPNAME[op], F.site, strerror (F.err), fds () - before_fds);
            }
            restore (w);
        }
}
static void size_limit (World& w, Op op)
{
    Case& c = w.c;
    if (!writes (op) || w.neutext.empty ()) return;
    struct rlimit old, lim;
    getrlimit (RLIMIT_FSIZE, &old);
    size_t n = w.neutext.size ();
    for (int k = 0; k < 12 && !c.failed; k++)
    {
        size_t at = k == 0 ? 0 : k == 1 ? n - 1 : k == 2 ? 1 : w.r.below (n);
        c.log ("%s: file size limit %zu of %zu", OPNAME[op], at, n);
        lim = old; lim.rlim_cur = at;
        setrlimit (RLIMIT_FSIZE, &lim);
        auto o = perform (w, op);
        setrlimit (RLIMIT_FSIZE, &old);
        c.count ("size_limits");
        c.nontrivial (strf ("limit %d %zu ", op, at) + w.neutext);
        if (o.st == DISIR_STATUS_OK) c.violation (strf ("%s:limit-success", OPNAME[op]), "%s of %zu bytes under a file size limit of %zu returned OK", OPNAME[op], n, at);
        else after (w, op, o, w.start, strf ("a file size limit of %zu", at), false);
        restore (w);
    }
}
// the process ends before one of its system calls
static void killed (World& w, Op op)
{
    Case& c = w.c;
    if (!writes (op) && op != REMOVE) return;
    long step = w.calls > 60 ? w.calls / 40 : 1;
    for (long n = 1; !c.failed; n += step == 1 ? 1 : w.r.range (1, 2 * step - 1))
    {
        c.log ("%s: killed before call %ld", OPNAME[op], n);
        pid_t p = fork ();
        if (p == 0)
        {
            F.at = n; F.kill = true; F.cut = false;
            perform (w, op);
            _exit (0);
        }
        int ws = 0;
        if (p < 0 || waitpid (p, &ws, 0) != p) return;
        bool done = WIFEXITED (ws) && WEXITSTATUS (ws) == 0;
        if (!done && !(WIFEXITED (ws) && WEXITSTATUS (ws) == 7)) { c.violation (strf ("%s:child", OPNAME[op]), "%s killed before call %ld ended with %x", OPNAME[op], n, ws); return; }
        if (!done)
        {
            c.count ("kills");
            c.nontrivial (strf ("kill %d %ld ", op, n) + w.neutext + w.oldtext);
        }
        // the entry is what it was, or what was written, and every other entry is what it was
        auto now = w.snap ();
        auto file = file_of (w, op);
        for (auto& e : w.start)
        {
            auto it = now.find (e.first);
            if (e.first == file || (it != now.end () && it->second == e.second)) continue;
            c.violation (strf ("%s:killed-other", OPNAME[op]), "%s killed before call %ld: %s changed", OPNAME[op], n, e.first.c_str ());
        }
        auto was = w.start.find (file), is = now.find (file);
        bool is_old = was == w.start.end () ? is == now.end () : is != now.end () && is->second == was->second;
        bool is_new = op == REMOVE ? is == now.end () : is != now.end () && is->second == w.neutext;
        if (!is_old && !is_new) c.violation (strf ("%s:killed", OPNAME[op]), "%s killed before call %ld left the entry as %s", OPNAME[op], n, is == now.end () ? "nothing" : quote (is->second).c_str ());
        if (!done) c.count (is_old ? "killed_old" : "killed_new");
        // the store goes on: listing names entries only, the operation can be repeated
        struct disir_entry *q = nullptr;
        disir_config_entries (w.in.p, "grp", &q);
        std::multiset<std::string> got, want {"dir/entry", "dir/other"};
        while (q) { auto *x = q->next; got.insert (q->de_entry_name); disir_entry_finished (&q); q = x; }
        if (is_new && (op == WRITE_NEW || op == WRITE_DEEP)) want.insert (id_of (op));
        if (is_new && op == REMOVE) want.erase ("dir/entry");
        if (got != want && !c.failed) { std::string s; for (auto& x : got) s += x + " "; c.violation (strf ("%s:killed-list", OPNAME[op]), "%s killed before call %ld: the listing is %s", OPNAME[op], n, s.c_str ()); }
        F.at = 0; F.kill = false;
        if (!is_new || op != REMOVE)
        {
            auto o = perform (w, op);
            if (!o.right) c.violation (strf ("%s:killed-again", OPNAME[op]), "%s repeated after having been killed before call %ld returned %s: %s", OPNAME[op], n, sname (o.st), o.err.c_str ());
        }
        restore (w);
        if (done) break;
    }
}
// things in the way
static void obstacle (World& w, Op op)
{
    Case& c = w.c;
    auto full = w.base + "/" + file_of (w, op);
    Snap keep = w.start;
    int kind = (int) w.r.below (3);
    const char *what = "";
    if (kind == 0)
    {
        // the entry's file is a directory, with something in it
        unlink (full.c_str ());
        mkdirs (full);
        spill (full + "/inside", "x");
        what = "a directory in place of its file";
    }
    else if (kind == 1)
    {
        // a regular file in place of a directory on the way
        auto dir = full.substr (0, full.rfind ('/'));
        wipe (dir);
        mkdirs (dir.substr (0, dir.rfind ('/')));
        spill (dir, "not a directory");
        what = "a file in place of its directory";
    }
    else
    {
        // the file refers to itself
        mkdirs (full.substr (0, full.rfind ('/')));
        unlink (full.c_str ());
        if (symlink (full.c_str (), full.c_str ())) return;
        what = "a link to itself in place of its file";
    }
    auto before = w.snap ();
    F.at = 0; F.kill = F.cut = false;
    c.log ("%s with %s", OPNAME[op], what);
    disir_error_clear (w.in.p);
    auto o = perform (w, op);
    c.count ("obstacles");
    c.nontrivial (strf ("obstacle %d %d ", op, kind) + w.neutext + w.oldtext);
    bool success = op == QUERY ? o.st == DISIR_STATUS_EXISTS : o.st == DISIR_STATUS_OK;
    // the mold is not in the way of reading it, nor the entry in that of its mold
    if (op == QUERY && kind == 0) success = false;
    // replacing a link to itself by the entry is a success too
    if (success && kind == 2 && writes (op)) { if (!o.right) c.violation (strf ("%s:obstacle", OPNAME[op]), "%s with %s returned OK, but the entry is not what was written", OPNAME[op], what); before.erase (file_of (w, op)); }
    else if (success && !(op == MOLD_READ)) c.violation (strf ("%s:obstacle", OPNAME[op]), "%s with %s returned %s", OPNAME[op], what, sname (o.st));
    else if (!success && o.st != DISIR_STATUS_EXISTS && o.err.empty ()) c.violation (strf ("%s:obstacle-silent", OPNAME[op]), "%s with %s returned %s without an error text", OPNAME[op], what, sname (o.st));
    auto now = w.snap ();
    if (success && kind == 2 && writes (op)) now.erase (file_of (w, op));
    for (auto& e : before) { auto it = now.find (e.first); if (it == now.end () || it->second != e.second) { c.violation (strf ("%s:obstacle-change", OPNAME[op]), "%s with %s changed %s", OPNAME[op], what, e.first.c_str ()); break; } }
    for (auto& e : now) if (!before.count (e.first) && e.first.back () != '/') { c.violation (strf ("%s:obstacle-leftover", OPNAME[op]), "%s with %s left %s", OPNAME[op], what, e.first.c_str ()); break; }
    wipe (full);
    if (kind == 1) wipe (full.substr (0, full.rfind ('/')));
    restore (w);
}
static MConfig some_config (World& w, const GenOpt& o)
{
    MConfig x;
    auto vs = breakpoints (w.mm[0]);
    x.ver = w.r.chance (1, 2) ? w.mm[0].ver : w.r.pick (vs);
    x.root = gen_config (w.r, w.mm[0], x.ver, o);
    x.root.section = true;
    return x;
}
void driver_case (Case& c)
{
    Rng& r = c.r;
    World w (c);
    GenOpt o;
    o.depth = (int) r.range (1, 2); o.width = (int) r.range (2, 4); o.strings = (int) r.below (3);
    w.base = scratch_dir () + "/f";
    w.cdir = w.base + "/c"; w.mdir = w.base + "/m";
    wipe (w.base);
    mkdirs (w.cdir); mkdirs (w.mdir);
    w.kind = r.chance (1, 2) ? JSON_PLUGIN : TOML_PLUGIN;
    w.ext = w.kind == JSON_PLUGIN ? ".json" : ".toml";
    w.mm[0] = gen_mold (r, o);
    o.width += 1;
    w.mm[1] = gen_mold (r, o);
    if ((w.mold[0] = build_mold (c, w.mm[0])) && (w.mold[1] = build_mold (c, w.mm[1])) && w.in.make (c) && w.in.plugin (c, w.kind, "io", "grp", w.cdir, w.mdir))
    {
        w.old = some_config (w, o); w.neu = some_config (w, o); w.other = some_config (w, o);
        auto *a = build_config (c, w.mold[0], w.old), *b = build_config (c, w.mold[0], w.other);
        w.cneu = build_config (c, w.mold[0], w.neu);
        if (a && b && w.cneu && EXPECT_OK (c, disir_mold_write (w.in.p, "grp", "dir/entry", w.mold[0])) && EXPECT_OK (c, disir_mold_write (w.in.p, "grp", "dir/__namespace", w.mold[0]))
            && EXPECT_OK (c, disir_mold_write (w.in.p, "grp", "one/two/three/fresh", w.mold[0])) && EXPECT_OK (c, disir_config_write (w.in.p, "grp", "dir/entry", a)) && EXPECT_OK (c, disir_config_write (w.in.p, "grp", "dir/other", b)))
        {
            w.start = w.snap ();
            w.oldtext = w.start["c/dir/entry" + w.ext];
            for (int k = 0; k < 3 && !c.failed; k++)
            {
                Op op = (Op) ((c.no * 3 + k) % OPS);
                system_calls (w, op);
                if (!c.failed) size_limit (w, op);
                if (!c.failed) killed (w, op);
                if (!c.failed) obstacle (w, op);
            }
        }
        if (a) disir_config_finished (&a);
        if (b) disir_config_finished (&b);
        if (w.cneu) disir_config_finished (&w.cneu);
        w.in.done (c);
    }
    for (auto *m : w.mold) if (m) disir_mold_finished (&m);
    wipe (w.base);
}
