"""Builds libcgmf and the harnesses from /repo's current working tree into /verif/.build (git-ignored).

Objects are keyed by the hash of the source file, of every header of the tree and of the flags, so a
second check in the same sandbox reuses them and any change of the tree is picked up.
"""
import fcntl, glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CGMF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

VARIANTS = {
    "opt": ["-O2", "-g0"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=undefined", "-fno-sanitize=float-divide-by-zero,float-cast-overflow"],
}
COMMON = ["-std=c++14", "-w", "-pipe"]


class BuildError(Exception):
    pass


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b"\0")
    return m.hexdigest()[:20]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))


def _config_dir():
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    src = _read(os.path.join(REPO, "libcgmf/cgmf_config.h.in")).decode()
    src = src.replace("@INSTALL_DATADIR@", "/nonexistent/cgmf-data").replace("@BUILD_DATADIR@", os.path.join(REPO, "data"))
    src = src.replace("${INSTALL_DATADIR}", "/nonexistent/cgmf-data").replace("${BUILD_DATADIR}", os.path.join(REPO, "data"))
    src = src.replace("#cmakedefine", "#define")
    p = os.path.join(d, "cgmf_config.h")
    if not os.path.exists(p) or _read(p).decode() != src:
        with open(p, "w") as f:
            f.write(src)
    return d


def _headers():
    hs = sorted(glob.glob(os.path.join(REPO, "libcgmf/include/**/*.h"), recursive=True)) + \
        sorted(glob.glob(os.path.join(REPO, "libcgmf/src/*.h"))) + [os.path.join(BUILD, "gen/cgmf_config.h")]
    return _h(*[h + "\n" + _h(_read(h)) for h in hs])


def includes():
    return ["-I" + os.path.join(REPO, "libcgmf/include"), "-I" + _config_dir(), "-I" + os.path.join(REPO, "libcgmf/src")]


def objects(variant="opt", defines=()):
    """Compiles every library source; returns the object list."""
    flags = COMMON + VARIANTS[variant] + list(defines) + includes()
    hk = _headers()
    srcs = sorted(glob.glob(os.path.join(REPO, "libcgmf/src/*.cpp")))
    if not srcs:
        raise BuildError("no sources under %s/libcgmf/src" % REPO)
    od = os.path.join(BUILD, "obj")
    os.makedirs(od, exist_ok=True)
    jobs, out = [], []
    for s in srcs:
        o = os.path.join(od, os.path.basename(s)[:-4] + "." + _h(_read(s), hk, " ".join(flags)) + ".o")
        out.append(o)
        if not os.path.exists(o):
            jobs.append(["g++"] + flags + ["-c", s, "-o", o + ".tmp%d" % os.getpid()])
    def go(c):
        _run(c)
        os.rename(c[-1], c[-1].rsplit(".tmp", 1)[0])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(go, jobs))
    return out


def program(name, sources, variant="opt", defines=(), libdefines=(), ldflags=(), objs=None):
    """Compiles harness `sources` and links them with the library objects; returns the executable's path."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if objs is None:
            objs = objects(variant, libdefines)
        flags = COMMON + VARIANTS[variant] + list(defines) + includes() + ["-I" + os.path.join(VERIF, "src")]
        hk = _headers()
        vh = _h(*[_h(_read(h)) for h in sorted(glob.glob(os.path.join(VERIF, "src/**/*.h"), recursive=True))])
        od = os.path.join(BUILD, "obj")
        hs = []
        for s in sources:
            lang = []
            cc = "g++"
            fl = flags
            if s.endswith(".c"):
                cc = "gcc"
                fl = [f for f in flags if f != "-std=c++14"]
            o = os.path.join(od, os.path.basename(s).rsplit(".", 1)[0] + "." + _h(_read(s), hk, vh, " ".join(fl), s) + ".o")
            hs.append(o)
            if not os.path.exists(o):
                _run([cc] + fl + lang + ["-c", s, "-o", o + ".tmp"])
                os.rename(o + ".tmp", o)
        key = _h(*(hs + list(objs) + list(ldflags) + [variant]))
        exe = os.path.join(BUILD, "bin", "%s.%s.%s" % (name, variant, key))
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        if not os.path.exists(exe):
            _run(["g++"] + VARIANTS[variant] + hs + list(objs) + ["-o", exe + ".tmp"] + list(ldflags) + ["-lm"])
            os.rename(exe + ".tmp", exe)
        return exe


def shim(name):
    """an LD_PRELOAD library from src/<name>.c"""
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        o = os.path.join(BUILD, "bin", "%s.%s.so" % (name, _h(_read(src(name + ".c")))))
        if not os.path.exists(o):
            _run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", o + ".tmp", src(name + ".c"), "-ldl"])
            os.rename(o + ".tmp", o)
        return o


def src(f):
    return os.path.join(VERIF, "src", f)


if __name__ == "__main__":
    # setup_cmd: warm the object cache (every check would do the same by itself)
    for v in ("opt", "asan"):
        print(program("evh", [src("evh.cpp")], v))
