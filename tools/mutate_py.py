#!/usr/bin/env python3
"""Mutation campaign over the Python implementation and the Cython module.

Usage: mutate_py.py FILE[,FILE...] [--n N] [--seed S] [--secs T] [--j J]   (files relative to /repo)
Works on private copies under /tmp/mutp; prints one line per mutant. Not used by any check.
"""
import argparse, concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, sys
W = "/tmp/mutp"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)


def mutants(text, pyx):
    out = []
    infn = False
    for i, l in enumerate(text.split("\n")):
        c = l.split("#")[0]
        s = c.strip()
        if "__main__" in s:
            break
        if not s or s.startswith(("import", "from", "assert", "class", "cdef extern", "@", '"""', "def ", "cpdef", "ctypedef", "print")) or '"' == s[:1]:
            continue
        if pyx and re.match(r"(cdef|const|void|int|bool|size_t|double|\w+&)\b.*[^:=]$", s) and "=" not in s:
            continue

        def add(a, b, t):
            out.append((i, l, l[:a] + t + l[b:]))
        for m in re.finditer(r"(?<![<>=!+\-*/])(<=|>=|==|!=|<|>)(?![<>=])", c):
            for r in {"<": ["<=", ">"], ">": [">=", "<"], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="]}[m.group(1)]:
                add(m.start(1), m.end(1), r)
        for m in re.finditer(r"\b(and|or)\b", c):
            add(m.start(), m.end(), "or" if m.group() == "and" else "and")
        for m in re.finditer(r"\bnot (?!in)", c):
            add(m.start(), m.end(), "")
        for m in re.finditer(r"(\+|-)=", c):
            add(m.start(), m.end(), "-=" if m.group() == "+=" else "+=")
        for m in re.finditer(r"(?<=[\w\)\]] )[+\-](?= [\w\(])|(?<=[\w\)\]])[+\-](?=[\w\(])", c):
            add(m.start(), m.end(), "-" if m.group() == "+" else "+")
        for m in re.finditer(r"(?<![\w.])\d+(?![\w.])", c):
            add(m.start(), m.end(), str(int(m.group()) + 1))
            if int(m.group()) > 0:
                add(m.start(), m.end(), str(int(m.group()) - 1))
        for m in re.finditer(r"\b(True|False)\b", c):
            add(m.start(), m.end(), "False" if m.group() == "True" else "True")
        m = re.match(r"\s*(if|elif|while) (.*):\s*$", c)
        if m:
            add(m.start(2), m.end(2), "False")
            if m.group(1) != "while":
                add(m.start(2), m.end(2), "True")
        if re.match(r"[\w.\[\], ()]+ *[-+*/]?=[^=]", s) or re.match(r"[\w.]+(\[[^\]]*\])?\.?\w*\(.*\)$", s) or s in ("break", "continue"):
            out.append((i, l, l[:len(l) - len(l.lstrip())] + "pass"))
        for m in re.finditer(r"\bself\b(?=.*\bother\b)", c):
            add(m.start(), m.end(), "other")
        for m in re.finditer(r"\bother\b", c):
            add(m.start(), m.end(), "self")
        for m in re.finditer(r"\.copy\(\)", c):
            add(m.start(), m.end(), "")
        for m in re.finditer(r"\bmax\(|\bmin\(", c):
            add(m.start(), m.end(), "min(" if m.group() == "max(" else "max(")
    return out


def run1(f, idx, mut, secs, text, base):
    i, old, new = mut
    d = f"{W}/m{idx}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        lines = text.split("\n")
        lines[i] = new
        t = "\n".join(lines)
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", ASAN_OPTIONS="detect_leaks=0:hard_rss_limit_mb=3000", UBSAN_OPTIONS="halt_on_error=1")
        if f.endswith(".pyx"):
            mod = os.path.join(d, "mod")
            os.makedirs(mod)
            open(d + "/ginv.pyx", "w").write(t)
            inc = subprocess.run(["/usr/bin/python3", "-c", "import sysconfig;print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"], stdout=subprocess.PIPE).stdout.decode().split()
            src = base + "/src"
            fl = "-std=c++17 -DNDEBUG -O0 -g1 -w -fPIC -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer".split()
            objs = [x for x in glob.glob(base + "/*.cpp.o")]
            for cmd in (["/usr/bin/python3", "-m", "cython", "-3", "--cplus", "ginv.pyx", "-o", "ginvmod.cpp"],
                        ["g++"] + fl + ["-I" + inc[0], "-I" + src, "-I" + src + "/util", "-I" + src + "/ginv", "-c", "ginvmod.cpp", "-o", "ginvmod.o"],
                        ["g++", "-shared"] + fl + ["ginvmod.o"] + objs + ["-o", mod + "/ginv" + inc[1], "-lgmpxx", "-lgmp", "-lcgraph", "-lgvc"]):
                p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode:
                    return "NOBUILD", ""
            lib = lambda x: subprocess.run(["gcc", "-print-file-name=" + x], stdout=subprocess.PIPE).stdout.decode().strip()
            env.update(GINV_MOD=mod, LD_PRELOAD=lib("libasan.so") + " " + lib("libubsan.so"), PYTHONMALLOC="malloc")
            drv = "d_cython"
        else:
            shutil.copytree("/repo/pyginv", d + "/py", ignore=shutil.ignore_patterns("*.ipynb", "*.png"))
            open(d + "/py/" + os.path.basename(f), "w").write(t)
            env.update(GINV_PY=d + "/py")
            drv = "d_pyginv"
        try:
            p = subprocess.run(["/usr/bin/python3", VERIF + f"/harness/{drv}.py", "--seconds", str(secs), "--seed", str(idx + 1), "--err", d + "/e", "--cur", d + "/cur", "--out", d + "/o"],
                               env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=secs * 3 + 90)
        except subprocess.TimeoutExpired:
            return "KILLED", "hang"
        try:
            v = json.load(open(d + "/o"))["violations"]
        except Exception:
            v = None
        if p.returncode or v or v is None:
            return "KILLED", (v[0]["key"] if v else f"rc {p.returncode}")
        return "SURVIVED", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("files")
    a.add_argument("--n", type=int, default=40)
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--secs", type=float, default=30)
    a.add_argument("--j", type=int, default=8)
    a = a.parse_args()
    base = None
    todo = []
    for f in a.files.split(","):
        t = open("/repo/" + f).read()
        if f.endswith(".pyx"):
            import build
            base = os.path.dirname(build.build_cython())
        for m in mutants(t, f.endswith(".pyx")):
            todo.append((f, m, t))
    random.Random(a.seed).shuffle(todo)
    print(len(todo), "mutants, sampling", a.n, flush=True)
    todo = todo[:a.n]
    with cf.ThreadPoolExecutor(a.j) as ex:
        fs = {ex.submit(run1, f, k, m, a.secs, t, base): (f, m) for k, (f, m, t) in enumerate(todo)}
        for r in cf.as_completed(fs):
            f, m = fs[r]
            try:
                st, why = r.result()
            except Exception as e:
                st, why = "ERROR", repr(e)[:200]
            print(f"{st}\t{f}:{m[0]+1}\t{m[1].strip()}\t=>\t{m[2].strip()}\t{why}", flush=True)


main()
