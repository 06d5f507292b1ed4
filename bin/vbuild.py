"""Builds the library (sanitized, out of tree) from /repo's working tree and the drivers against it."""
import fcntl, hashlib, json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = os.path.join(VERIF, ".build")
JOBS = str(os.cpu_count() or 4)
ENV = dict(os.environ, CC="gcc", CXX="g++", CCACHE_DISABLE="1")
for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"):
    ENV.pop(k, None)

# vptr needs rtti of every library class, pointer-overflow trips on the plugins' "(char *) NULL + constant" idiom:
# neither says anything about behaviour.
SAN = {
    "asan": "-g -O1 -DNDEBUG -w -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr,pointer-overflow "
            "-fno-sanitize-recover=undefined",
    "tsan": "-g -O1 -DNDEBUG -w -fno-omit-frame-pointer -fsanitize=thread",
    "plain": "-g -O1 -DNDEBUG -w",
    "cov": "-g -O0 -DNDEBUG -w --coverage",
}


class BuildError(Exception):
    pass


def run(cmd, what, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)
    if p.returncode:
        sys.stdout.write(p.stdout[-6000:])
        raise BuildError(what)
    return p.stdout


def tree_hashes():
    out = {}
    for base, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in (".git", "_build", "build", "test", "doc")]
        for f in files:
            p = os.path.join(base, f)
            try:
                with open(p, "rb") as h:
                    out[p] = hashlib.sha1(h.read()).hexdigest()
            except OSError:
                pass
    return out


def build_lib(kind, targets=("disir_static",)):
    """Incremental, but decided by content: when a file changed without its time stamp moving past the last
    build, the whole tree is rebuilt."""
    os.makedirs(B, exist_ok=True)
    d = os.path.join(B, kind)
    with open(os.path.join(B, kind + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(B, kind + ".json")
        now = tree_hashes()
        flags = SAN[kind]
        fresh = True
        if os.path.exists(stamp) and os.path.isdir(d):
            try:
                old = json.load(open(stamp))
                if old["flags"] == flags and old["where"] == d:
                    fresh = False
                    for p in set(now) | set(old["files"]):
                        if now.get(p) != old["files"].get(p):
                            if p not in now or os.stat(p).st_mtime <= old["time"]:
                                fresh = True
            except (ValueError, KeyError, OSError):
                fresh = True
        if fresh:
            subprocess.run(["rm", "-rf", d])
        t = __import__("time").time() - 2
        run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=None",
             "-DCMAKE_C_FLAGS=" + flags, "-DCMAKE_CXX_FLAGS=-include string " + flags,
             "-DCMAKE_PROJECT_disir_INCLUDE=" + os.path.join(VERIF, "harness", "project_include.cmake")],
            "configuring the library")
        run(["ninja", "-C", d, "-j", JOBS] + list(targets), "building the library")
        json.dump(dict(flags=flags, where=d, files=now, time=t), open(stamp, "w"))
    return d


def build_driver(name, kind="asan", extra_src=(), ldflags=()):
    """Compiles harness/<name>.cc with the shared runtime against the library; returns the executable."""
    libdir = build_lib(kind)
    od = os.path.join(B, kind + "-drv")
    os.makedirs(od, exist_ok=True)
    with open(os.path.join(B, kind + "-drv.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        srcs = [name + ".cc", "common.cc", "wraps.cc"] + list(extra_src)
        objs, jobs = [], []
        hdr = hashlib.sha1()
        for base in (os.path.join(VERIF, "harness"), os.path.join(REPO, "include"), os.path.join(REPO, "3rdparty/jsoncpp"),
                     os.path.join(REPO, "3rdparty/tinytoml")):
            for b, _, fs in sorted(os.walk(base)):
                for f in sorted(fs):
                    if f.endswith((".h", ".hh", ".hpp", ".hxx", ".inc")):
                        hdr.update(open(os.path.join(b, f), "rb").read())
        for s in srcs:
            p = os.path.join(VERIF, "harness", s)
            flags = ["-std=c++17", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "3rdparty/jsoncpp"),
                     "-I" + os.path.join(REPO, "3rdparty"), "-I" + os.path.join(VERIF, "harness")] + SAN[kind].split()
            key = hashlib.sha1(hdr.digest() + open(p, "rb").read() + " ".join(flags).encode()).hexdigest()[:16]
            o = os.path.join(od, s.replace(".cc", "") + "-" + key + ".o")
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((subprocess.Popen(["g++"] + flags + ["-c", p, "-o", o + ".tmp"], stdout=subprocess.PIPE,
                                              stderr=subprocess.STDOUT, text=True, env=ENV), o, s))
        bad = None
        for pr, o, s in jobs:
            out = pr.communicate()[0]
            if pr.returncode:
                sys.stdout.write(out[-5000:])
                bad = s
            else:
                os.rename(o + ".tmp", o)
        if bad:
            raise BuildError("compiling " + bad)
        exe = os.path.join(od, name)
        san = [f for f in SAN[kind].split() if f.startswith("-fsanitize") or f == "--coverage"]
        run(["g++"] + san + ["-rdynamic", "-Wl,--wrap=fopen", *ldflags, "-o", exe] + objs +
            [os.path.join(libdir, "lib", "libdisir_static.a"), "-larchive", "-ldl", "-lpthread"], "linking " + name)
    return exe
