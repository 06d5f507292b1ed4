// C22: no entry id reaches a file outside the configured directories.
#include "store.inc"
#include <limits.h>
#include <stdarg.h>
const char *PROPERTY = "C22";
const char *RULE = "one store operation with a hostile or ordinary entry id; distinct by operation, plugin and id; non-trivial: the id has a segment other than plain names, or is too long, or names a decoy";
std::vector<std::pair<const char *, long>> REQUIRED = {
    {"hostile_ids", 20000}, {"leaving_ids", 8000}, {"absolute_ids", 1500}, {"long_ids", 800}, {"decoy_ids", 4000}, {"plain_ids", 2000}, {"plain_ok", 800}, {"refused", 10000}, {"paths_recorded", 10000}};
long driver_directed () { return 0; }

// ---- every path the library hands to the system --------------------------------------------------------
static struct { bool on; std::string c, m, top; std::vector<std::pair<std::string, std::string>> bad; long seen; } R;
static std::string normal (const std::string& p)
{
    std::vector<std::string> seg;
    std::string full = p;
    if (p.empty () || p[0] != '/') { char b[PATH_MAX]; if (getcwd (b, sizeof b)) full = std::string (b) + "/" + p; }
    for (size_t i = 0; i < full.size ();)
    {
        size_t j = full.find ('/', i);
        if (j == std::string::npos) j = full.size ();
        auto s = full.substr (i, j - i);
        if (s == "..") { if (!seg.empty ()) seg.pop_back (); }
        else if (!s.empty () && s != ".") seg.push_back (s);
        i = j + 1;
    }
    std::string o;
    for (auto& s : seg) o += "/" + s;
    return o.empty () ? "/" : o;
}
static bool beneath (const std::string& dir, const std::string& p) { return p == dir || p.compare (0, dir.size () + 1, dir + "/") == 0; }
// 'false': the call must not reach the system
static bool path (const char *call, const char *p, bool modifies)
{
    if (!R.on || !p) return true;
    R.seen++;
    bool on = R.on;
    R.on = false;
    auto n = normal (p);
    bool ok = beneath (R.c, n) || beneath (R.m, n);
    // making the directories that lead to the base, or looking at them, has no effect
    if (!ok && (!strcmp (call, "mkdir") || !strcmp (call, "stat") || !strcmp (call, "lstat") || !strcmp (call, "access")) && (beneath (n, R.c) || beneath (n, R.m))) ok = true;
    // looking at an attribute opens nothing
    if (!ok && (!strcmp (call, "stat") || !strcmp (call, "lstat") || !strcmp (call, "access") || !strcmp (call, "realpath"))) ok = true;
    if (!ok) R.bad.push_back ({call, n});
    R.on = on;
    return ok || !modifies || beneath (R.top, n);
}
#define REAL(f) __real_##f
#define STOP do { errno = EACCES; } while (0)
extern "C" {
int REAL (open) (const char *, int, ...); int REAL (openat) (int, const char *, int, ...); FILE *REAL (fopen) (const char *, const char *);
int REAL (rename) (const char *, const char *); int REAL (mkdir) (const char *, mode_t); int REAL (stat) (const char *, struct stat *); int REAL (lstat) (const char *, struct stat *);
int REAL (remove) (const char *); int REAL (unlink) (const char *); int REAL (rmdir) (const char *); int REAL (access) (const char *, int); DIR *REAL (opendir) (const char *);
int REAL (truncate) (const char *, off_t); int REAL (link) (const char *, const char *); int REAL (symlink) (const char *, const char *); int REAL (chmod) (const char *, mode_t);
int REAL (mkstemp) (char *); int REAL (creat) (const char *, mode_t);
int __wrap_open (const char *p, int fl, ...) { va_list a; va_start (a, fl); int m = va_arg (a, int); va_end (a); if (!path ("open", p, (fl & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) != 0)) { STOP; return -1; } return REAL (open) (p, fl, m); }
int __wrap_openat (int d, const char *p, int fl, ...) { va_list a; va_start (a, fl); int m = va_arg (a, int); va_end (a); if (d == AT_FDCWD && !path ("openat", p, (fl & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) != 0)) { STOP; return -1; } return REAL (openat) (d, p, fl, m); }
int __wrap_creat (const char *p, mode_t m) { if (!path ("creat", p, true)) { STOP; return -1; } return REAL (creat) (p, m); }
int __wrap_rename (const char *a, const char *b) { bool x = path ("rename", a, true), y = path ("rename", b, true); if (!x || !y) { STOP; return -1; } return REAL (rename) (a, b); }
int __wrap_link (const char *a, const char *b) { bool x = path ("link", a, true), y = path ("link", b, true); if (!x || !y) { STOP; return -1; } return REAL (link) (a, b); }
int __wrap_symlink (const char *a, const char *b) { if (!path ("symlink", b, true)) { STOP; return -1; } return REAL (symlink) (a, b); }
int __wrap_mkdir (const char *p, mode_t m) { if (!path ("mkdir", p, true)) { STOP; return -1; } return REAL (mkdir) (p, m); }
int __wrap_stat (const char *p, struct stat *s) { path ("stat", p, false); return REAL (stat) (p, s); }
int __wrap_lstat (const char *p, struct stat *s) { path ("lstat", p, false); return REAL (lstat) (p, s); }
int __wrap_remove (const char *p) { if (!path ("remove", p, true)) { STOP; return -1; } return REAL (remove) (p); }
int __wrap_unlink (const char *p) { if (!path ("unlink", p, true)) { STOP; return -1; } return REAL (unlink) (p); }
int __wrap_rmdir (const char *p) { if (!path ("rmdir", p, true)) { STOP; return -1; } return REAL (rmdir) (p); }
int __wrap_access (const char *p, int m) { path ("access", p, false); return REAL (access) (p, m); }
DIR *__wrap_opendir (const char *p) { path ("opendir", p, false); return REAL (opendir) (p); }
int __wrap_truncate (const char *p, off_t n) { if (!path ("truncate", p, true)) { STOP; return -1; } return REAL (truncate) (p, n); }
int __wrap_chmod (const char *p, mode_t m) { if (!path ("chmod", p, true)) { STOP; return -1; } return REAL (chmod) (p, m); }
int __wrap_mkstemp (char *t) { if (!path ("mkstemp", t, true)) { STOP; return -1; } return REAL (mkstemp) (t); }
}
extern FILE *(*g_fopen_hook) (const char *path, const char *mode);
static FILE *hook (const char *p, const char *m) { if (!path ("fopen", p, strchr (m, 'r') == nullptr || strchr (m, '+'))) { STOP; return nullptr; } return REAL (fopen) (p, m); }
void driver_setup () { g_fopen_hook = hook; }

// ---- ids -----------------------------------------------------------------------------------------------------
struct Id { std::string s; bool leaving, absolute, toolong, decoy, plain; };
static const char *SEG[] = {"dir", "e", "other", "out", "x", "__namespace", "c", "m", "a", "b", "m1", "m2", "m3", "e.o", "new", "deep_er"};
static bool leaves (const std::string& s)
{
    int depth = 0;
    for (size_t i = 0; i <= s.size ();)
    {
        size_t j = s.find ('/', i);
        if (j == std::string::npos) j = s.size ();
        auto seg = s.substr (i, j - i);
        if (seg == "..") { if (--depth < 0) return true; }
        else if (!seg.empty () && seg != ".") depth++;
        i = j + 1;
    }
    return false;
}
static Id some_id (Rng& r, const std::string& top, const std::string& cdir, const std::string& mdir, const std::string& cext)
{
    Id id {"", false, false, false, false, false};
    switch (r.below (9))
    {
    case 0:                     // straight out, to a decoy
        for (int n = (int) r.range (1, 3); n > 0; n--) id.s += "../";
        id.s += r.chance (3, 4) ? "out/e" : r.chance (1, 2) ? "out/__namespace" : "out/new";
        id.decoy = true;
        break;
    case 1:                     // out after going in
    {
        int in = (int) r.range (1, 3);
        for (int n = 0; n < in; n++) id.s += std::string (r.chance (1, 2) ? "dir" : SEG[r.below (16)]) + (r.chance (1, 6) ? "//" : "/");
        for (int n = in + (int) r.range (0, 2); n > 0; n--) id.s += r.chance (1, 6) ? "..//" : r.chance (1, 6) ? ".././" : "../";
        id.s += r.chance (1, 2) ? "out/e" : "e";
        id.decoy = true;
        break;
    }
    case 2:                     // an absolute name
    {
        static const char *at[] = {"/a/b/out/e", "/a/out/e", "/out/e", "/m1/m2/m3/out/e", "/m1/m2/out/e", "/m1/out/e", "/a/b/c/dir/e", "/m1/m2/m3/m/dir/e", "/fresh"};
        id.s = top + at[r.below (9)];
        if (r.chance (1, 4)) id.s = "/" + id.s;
        id.absolute = id.decoy = true;
        break;
    }
    case 3:                     // too long, or nearly
    {
        const auto& base = r.chance (1, 2) ? cdir : mdir;
        long room = PATH_MAX - (long) base.size () - 1 - (long) cext.size ();
        long want = r.chance (1, 4) ? (long) r.range (250, 262) : room + r.range (-8, 12);
        if (r.chance (1, 12)) want = (long) r.range (PATH_MAX, 20000);
        bool flat = r.chance (1, 4) || want < 300;
        if (r.chance (1, 6)) id.s = "../out/";
        while ((long) id.s.size () < want) id.s += !flat && id.s.size () % 100 == 99 ? '/' : 'e';
        id.toolong = true;
        break;
    }
    case 4:                     // odd bytes
    {
        static const char *odd[] = {"e\n", "e%2f..", "..%2fout%2fe", "dir\\..\\e", "\x01", "e ", "~/e", "$HOME", "e;x", ".", "..", "...", "../", "./", "/", "//", "/..", "/../", "e/..", "e/.", "..e", "e..", "\xc3\xa6", "\xff", "E", "dir/E", "e.json", "e.o", "dir/e.o", ".tmp-1-0", "*", "dir/*", "-", "--", "e|x"};
        id.s = odd[r.below (sizeof odd / sizeof *odd)];
        if (r.chance (1, 4)) id.s = "dir/" + id.s;
        if (r.chance (1, 4)) id.s += "/../../out/e";
        break;
    }
    case 5:                     // random bytes
        for (int n = (int) r.range (0, 12); n > 0; n--) id.s += r.chance (1, 3) ? "./a"[r.below (3)] : (char) r.range (1, 255);
        break;
    case 6:                     // segments
        for (int n = (int) r.range (1, 6); n > 0; n--) id.s += std::string (r.chance (1, 3) ? ".." : r.chance (1, 6) ? "." : r.chance (1, 8) ? "" : SEG[r.below (16)]) + (n > 1 ? "/" : "");
        break;
    default:                    // ordinary
        id.s = r.chance (1, 2) ? "dir/e" : r.chance (1, 2) ? "dir/other" : std::string (SEG[r.below (13)]) + "/" + SEG[r.below (13)];
        id.plain = true;
    }
    if (leaves (id.s)) id.leaving = true;
    return id;
}
typedef std::map<std::string, std::string> Snap;
void driver_case (Case& c)
{
    Rng& r = c.r;
    GenOpt o;
    o.depth = 1; o.width = 3; o.strings = (int) r.below (2);
    std::string top = scratch_dir () + "/x", cdir = top + "/a/b/c", mdir = top + "/m1/m2/m3/m";
    wipe (top);
    mkdirs (cdir); mkdirs (mdir);
    PluginKind kind = r.chance (1, 2) ? JSON_PLUGIN : TOML_PLUGIN;
    std::string ext = kind == JSON_PLUGIN ? ".json" : ".toml";
    MMold mm = gen_mold (r, o);
    struct disir_mold *mold = build_mold (c, mm);
    Inst in;
    MConfig x, y;
    x.ver = y.ver = mm.ver;
    x.root = gen_config (r, mm, x.ver, o); y.root = gen_config (r, mm, y.ver, o);
    x.root.section = y.root.section = true;
    struct disir_config *cfg = nullptr, *neu = nullptr;
    R.on = false; R.bad.clear (); R.c = normal (cdir); R.m = normal (mdir); R.top = normal (top);
    if (mold && in.make (c) && in.plugin (c, kind, "io", "grp", cdir, mdir) && (cfg = build_config (c, mold, x)) && (neu = build_config (c, mold, y))
        && EXPECT_OK (c, disir_mold_write (in.p, "grp", "dir/e", mold)) && EXPECT_OK (c, disir_mold_write (in.p, "grp", "dir/other", mold)) && EXPECT_OK (c, disir_mold_write (in.p, "grp", "__namespace", mold))
        && EXPECT_OK (c, disir_config_write (in.p, "grp", "dir/e", cfg)) && EXPECT_OK (c, disir_config_write (in.p, "grp", "dir/other", cfg)))
    {
        // decoys: entries and molds that a parent reference would find
        std::string ctext, mtext;
        slurp (cdir + "/dir/e" + ext, ctext);
        slurp (mdir + "/dir/e.json", mtext);
        for (auto d : {"/a/b/out", "/a/out", "/out"}) { mkdirs (top + d); spill (top + d + "/e" + ext, ctext); spill (top + d + "/__namespace" + ext, ctext); }
        for (auto d : {"/a/b/", "/a/", "/"}) spill (top + d + "e" + ext, ctext);
        for (auto d : {"/m1/m2/m3/out", "/m1/m2/out", "/m1/out"}) { mkdirs (top + d); spill (top + d + "/e.json", mtext); spill (top + d + "/__namespace.json", mtext); }
        for (auto d : {"/m1/m2/m3/", "/m1/m2/", "/m1/"}) { spill (top + std::string (d) + "e.json", mtext); spill (top + std::string (d) + "__namespace.json", mtext); }
        Snap was;
        snapshot (top, "", was);
        for (int k = 0; k < 40 && !c.failed; k++)
        {
            auto id = some_id (r, top, cdir, mdir, ext);
            int op = (int) r.below (8);
            static const char *ON[] = {"config read", "config read with mold", "config write", "config remove", "config query", "mold read", "mold write", "mold query"};
            enum disir_status st = DISIR_STATUS_OK;
            struct disir_config *got = nullptr;
            struct disir_mold *gm = nullptr;
            c.log ("%s %s", ON[op], quote (id.s).c_str ());
            disir_error_clear (in.p);
            R.bad.clear (); R.seen = 0; R.on = true;
            switch (op)
            {
            case 0: st = disir_config_read (in.p, "grp", id.s.c_str (), nullptr, &got); break;
            case 1: st = disir_config_read (in.p, "grp", id.s.c_str (), mold, &got); break;
            case 2: st = disir_config_write (in.p, "grp", id.s.c_str (), neu); break;
            case 3: st = disir_config_remove (in.p, "grp", id.s.c_str ()); break;
            case 4: st = disir_config_query (in.p, "grp", id.s.c_str (), nullptr); break;
            case 5: st = disir_mold_read (in.p, "grp", id.s.c_str (), &gm); break;
            case 6: st = disir_mold_write (in.p, "grp", id.s.c_str (), mold); break;
            default: st = disir_mold_query (in.p, "grp", id.s.c_str (), nullptr);
            }
            R.on = false;
            c.count ("paths_recorded", R.seen);
            bool ok = st == DISIR_STATUS_OK || st == DISIR_STATUS_EXISTS;
            bool mold_op = op >= 5;
            std::string full = (mold_op ? mdir : cdir) + "/" + id.s + (mold_op ? ".json" : ext);
            bool excess = full.size () >= PATH_MAX;
            for (size_t i = 0, run = 0; i <= id.s.size (); i++) { if (i == id.s.size () || id.s[i] == '/') { if (run + (i == id.s.size () ? strlen (mold_op ? ".json" : ext.c_str ()) : 0) > NAME_MAX) excess = true; run = 0; } else run++; }
            c.count (id.plain ? "plain_ids" : "hostile_ids");
            if (id.leaving) c.count ("leaving_ids");
            if (id.absolute) c.count ("absolute_ids");
            if (excess) c.count ("long_ids");
            if (id.decoy) c.count ("decoy_ids");
            if (id.plain && ok) c.count ("plain_ok");
            if (!ok) c.count ("refused");
            if (!id.plain) c.nontrivial (strf ("%d %d ", op, kind) + id.s);
            for (auto& b : R.bad) c.violation (strf ("%s:path", ON[op]), "%s of %s: %s on %s", ON[op], quote (id.s).c_str (), b.first.c_str (), b.second.c_str ());
            // (the namespace's mold serves ids of any length)
            if ((id.leaving || (excess && op != 5 && op != 7)) && ok) c.violation (strf ("%s:accepted", ON[op]), "%s of %s returned %s", ON[op], quote (id.s).c_str (), sname (st));
            if (!ok && (id.leaving || excess) && in.error ().empty ()) c.violation (strf ("%s:silent", ON[op]), "%s of %s returned %s without an error text", ON[op], quote (id.s).c_str (), sname (st));
            if ((op == 0 || op == 1) && st == DISIR_STATUS_OK && !got) c.violation (strf ("%s:nothing", ON[op]), "%s of %s returned OK and nothing", ON[op], quote (id.s).c_str ());
            if (got) disir_config_finished (&got);
            if (gm) disir_mold_finished (&gm);
            // what changed on disk
            Snap now;
            snapshot (top, "", now);
            std::string own = normal (full).size () > top.size () ? normal (full).substr (R.top.size () + 1) : "";
            auto allowed = [&] (const std::string& f)
            {
                bool inside = mold_op ? f.compare (0, 11, "m1/m2/m3/m/") == 0 : f.compare (0, 6, "a/b/c/") == 0;
                if (!inside || id.leaving) return false;
                if (f.back () == '/') return op == 2 || op == 6;         // directories on the way
                return ok && !excess && f == own && (op == 2 || op == 3 || op == 6);
            };
            for (auto& e : was) { auto it = now.find (e.first); if ((it == now.end () || it->second != e.second) && !allowed (e.first)) { c.violation (strf ("%s:changed", ON[op]), "%s of %s returned %s and %s %s", ON[op], quote (id.s).c_str (), sname (st), it == now.end () ? "removed" : "changed", e.first.c_str ()); break; } }
            for (auto& e : now) if (!was.count (e.first) && !allowed (e.first)) { c.violation (strf ("%s:created", ON[op]), "%s of %s returned %s and created %s", ON[op], quote (id.s).c_str (), sname (st), quote (e.first).c_str ()); break; }
            // back to the start
            if (now != was)
            {
                for (auto it = now.rbegin (); it != now.rend (); ++it) if (!was.count (it->first)) wipe (top + "/" + (it->first.back () == '/' ? it->first.substr (0, it->first.size () - 1) : it->first));
                for (auto& e : was) if (e.first.back () != '/') { auto it = now.find (e.first); if (it == now.end () || it->second != e.second) spill (top + "/" + e.first, e.second); }
            }
        }
    }
    if (cfg) disir_config_finished (&cfg);
    if (neu) disir_config_finished (&neu);
    in.done (c);
    if (mold) disir_mold_finished (&mold);
    wipe (top);
}
