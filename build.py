"""Builds the monitored configurations of /repo's current working tree.

Every build lives in /verif/build/<hash of all inputs>, so a changed tree is always
rebuilt and an unchanged one is reused within the same sandbox copy.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(HERE, "build")
HARNESS = os.path.join(HERE, "harness")

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
# name: (flags, GINV_UTIL_ALLOCATOR, GINV_UTIL_INTEGER_ALLOCATOR)
CONFIGS = {
    "A": (SAN, True, True),     # the shipped configuration
    "B": (SAN, False, True),    # every object its own heap block: exact use-after-free / overflow
    "C": (SAN, True, False),    # integers on plain GMP memory
    "D": (SAN + ["-UNDEBUG", "-DVH_SLOW"], True, True),  # with the library's own assertions as further monitors
    "V": (["-DVH_SLOW"], True, True),      # uninstrumented, for valgrind memcheck
    "W": (["-DVH_SLOW"], False, True),     # uninstrumented, per-object heap blocks, for valgrind memcheck
}
BASE = ["-std=c++17", "-DNDEBUG", "-O1", "-g1", "-w"]
LIBS = ["-lgmpxx", "-lgmp", "-lcgraph", "-lgvc"]
SKIP = {"bpoly.cpp"}            # does not compile at the pinned commit, not part of the library


class BuildError(Exception):
    pass


def library_sources():
    r = []
    for d in ("util", "ginv"):
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))):
            if os.path.basename(f) not in SKIP:
                r.append(f)
    return r


def _digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.basename(os.path.dirname(p)).encode() + b"/" + os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:16]


def _tree():
    r = []
    for d in ("util", "ginv"):
        for e in ("*.cpp", "*.h"):
            r += [f for f in glob.glob(os.path.join(REPO, d, e)) if os.path.basename(f) != "config.h"]
    return r


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        out = p.stdout.decode(errors="replace")
        bad = [l for l in out.splitlines() if "error" in l or "undefined" in l]
        raise BuildError(" ".join(cmd) + "\n" + "\n".join(bad[:12] or out.splitlines()[-20:]))
    return p.stdout


class Lock:
    def __init__(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        self.f = open(path, "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def _layout(base, cfg):
    """A copy of the sources with the two generated config.h files."""
    _, alloc, ialloc = CONFIGS[cfg]
    src = os.path.join(base, "src")
    for d in ("util", "ginv"):
        os.makedirs(os.path.join(src, d), exist_ok=True)
    for f in _tree():
        dst = os.path.join(src, os.path.basename(os.path.dirname(f)), os.path.basename(f))
        shutil.copyfile(f, dst)
    with open(os.path.join(src, "util", "config.h"), "w") as f:
        f.write("#ifndef GINV_UTIL_CONFIG_H\n#define GINV_UTIL_CONFIG_H\n#define GINV_UTIL_GRAPHVIZ\n")
        if alloc:
            f.write("#define GINV_UTIL_ALLOCATOR\n")
        if ialloc:
            f.write("#define GINV_UTIL_INTEGER_ALLOCATOR\n")
        f.write("#endif\n")
    with open(os.path.join(src, "ginv", "config.h"), "w") as f:
        f.write("#ifndef GINV_CONFIG_H\n#define GINV_CONFIG_H\n#define GINV_GRAPHVIZ\n")
        if alloc:
            f.write("#define GINV_ALLOCATOR\n")
        f.write("#endif\n")
    return src


def build(wanted, log=sys.stderr):
    """wanted: set of (driver, config). Returns {(driver, config): executable}."""
    tree = _tree()
    jobs, links, exes = {}, [], {}
    os.makedirs(OUT, exist_ok=True)
    with Lock(os.path.join(OUT, ".lock")):
        for cfg in sorted({c for _, c in wanted}):
            flags = BASE + CONFIGS[cfg][0]
            key = _digest(tree, cfg + " ".join(flags) + repr(CONFIGS[cfg]))
            base = os.path.join(OUT, cfg + "-" + key)
            src = os.path.join(base, "src")
            if not os.path.isdir(src):
                _layout(base, cfg)
            objs = []
            for f in library_sources():
                rel = os.path.join(os.path.basename(os.path.dirname(f)), os.path.basename(f))
                o = os.path.join(base, rel.replace("/", "_") + ".o")
                objs.append(o)
                if not os.path.exists(o):
                    jobs[o] = ["g++"] + flags + ["-I" + src, "-c", os.path.join(src, rel), "-o", o + ".tmp.o"]
            for drv in sorted({d for d, c in wanted if c == cfg}):
                hs = glob.glob(os.path.join(HARNESS, "*.hpp")) + [os.path.join(HARNESS, drv + ".cpp")]
                dk = _digest(hs, " ".join(flags))
                o = os.path.join(base, drv + "-" + dk + ".o")
                exe = o[:-2]
                exes[drv, cfg] = exe
                if not os.path.exists(exe):
                    if not os.path.exists(o):
                        jobs[o] = ["g++"] + flags + ["-I" + src, "-I" + HARNESS, "-c", os.path.join(HARNESS, drv + ".cpp"), "-o", o + ".tmp.o"]
                    links.append((exe, ["g++"] + flags + [o] + objs + ["-o", exe + ".tmp"] + LIBS))

        def comp(item):
            o, cmd = item
            _run(cmd)
            os.rename(o + ".tmp.o", o)

        # the drivers and the polynomial code take longest: start them first
        order = sorted(jobs.items(), key=lambda x: 0 if "poly_int" in x[0] or "/d_" in x[0] else 1)
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for f in [ex.submit(comp, j) for j in order]:
                f.result()

        def link(item):
            exe, cmd = item
            _run(cmd)
            os.rename(exe + ".tmp", exe)
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for f in [ex.submit(link, l) for l in links]:
                f.result()
    return exes


def build_cython(san=True):
    """The Python module from cython/ginv.pyx and the current library; returns the folder to put on sys.path."""
    pyx = [os.path.join(REPO, "cython", f) for f in ("ginv.pyx",)]
    flags = ["-std=c++17", "-DNDEBUG", "-O1", "-g1", "-w", "-fPIC"] + (["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"] if san else [])
    with Lock(os.path.join(OUT, ".lock-cython")):
        key = _digest(_tree() + pyx, "cython" + " ".join(flags))
        base = os.path.join(OUT, "cython-" + key)
        mod = os.path.join(base, "mod")
        done = os.path.join(base, "done")
        if os.path.exists(done):
            return mod
        src = _layout(base, "A")
        os.makedirs(mod, exist_ok=True)
        shutil.copyfile(pyx[0], os.path.join(base, "ginv.pyx"))
        jobs = []
        objs = []
        for f in library_sources():
            rel = os.path.join(os.path.basename(os.path.dirname(f)), os.path.basename(f))
            o = os.path.join(base, rel.replace("/", "_") + ".o")
            objs.append(o)
            jobs.append(["g++"] + flags + ["-I" + src, "-c", os.path.join(src, rel), "-o", o])
        inc = subprocess.run(["/usr/bin/python3", "-c", "import sysconfig;print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                             stdout=subprocess.PIPE, check=True).stdout.decode().split()

        def module():
            _run(["/usr/bin/python3", "-m", "cython", "-3", "--cplus", "ginv.pyx", "-o", "ginvmod.cpp"], cwd=base)
            _run(["g++"] + flags + ["-I" + inc[0], "-I" + src, "-I" + src + "/util", "-I" + src + "/ginv", "-c", "ginvmod.cpp", "-o", "ginvmod.o"], cwd=base)
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            fs = [ex.submit(module)] + [ex.submit(_run, j) for j in jobs]
            for f in fs:
                f.result()
        _run(["g++", "-shared"] + flags + ["ginvmod.o"] + objs + ["-o", os.path.join(mod, "ginv" + inc[1])] + LIBS, cwd=base)
        open(done, "w").close()
        return mod


if __name__ == "__main__":
    args = sys.argv[1:]
    if args and args[0] == "cython":
        print(build_cython())
    else:
        w = {tuple(a.split(":")) for a in args}
        try:
            for k, v in build(w).items():
                print(k, v)
        except BuildError as e:
            print(e, file=sys.stderr)
            sys.exit(2)
