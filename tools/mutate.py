#!/usr/bin/env python3
"""Mutation campaign over the C++ sources: which small edits do the drivers not notice?

Usage: mutate.py FILE[,FILE...] [--n N] [--seed S] [--secs T]   (files relative to /repo)
Works on a private copy under /tmp/mut; prints one line per mutant (KILLED/SURVIVED/NOBUILD).
Not used by any check; it is the tool the seeded-bug work started from.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, concurrent.futures as cf, hashlib
W = "/tmp/mut"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = "-std=c++17 -DNDEBUG -O1 -g1 -w -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer".split()
LIBS = ["-lgmpxx", "-lgmp", "-lcgraph", "-lgvc"]
DRV = {"allocator": ["d_alloc", "d_cont", "d_gb", "d_int"], "hilbertpoly": ["d_misc", "d_gb"], "integer": ["d_int", "d_poly"],
       "randpermutation": ["d_misc"], "timer": ["d_misc"], "list": ["d_cont", "d_alloc", "d_janet", "d_poly"],
       "rbtree": ["d_cont", "d_janet", "d_draw"], "stack": ["d_cont"], "gb": ["d_janet", "d_draw", "d_gb"], "janet": ["d_janet", "d_gb", "d_draw"],
       "mcompletion": ["d_janet", "d_draw"], "monom": ["d_monom", "d_poly", "d_janet", "d_gb"], "poly_int": ["d_poly", "d_alloc", "d_gb"],
       "wrap": ["d_gb", "d_janet", "d_monom"], "bmonom": ["d_monom", "d_misc"], "poly": ["d_misc", "d_poly"]}
ALL = ["d_monom", "d_poly", "d_janet", "d_gb", "d_alloc", "d_cont", "d_int", "d_misc", "d_draw"]

def mutants(text):
    out = []
    for i, l in enumerate(text.split("\n")):
        c = l.split("//")[0]
        s = c.strip()
        if not s or s.startswith(("#", "*", "/*", "assert", "class", "struct", "template", "public", "private", "friend", "std::cout", "operator", "namespace", "using")):
            continue
        if "assert" in s: continue
        def add(a, b, t): out.append((i, l, l[:a] + t + l[b:]))
        for m in re.finditer(r"(?<![<>=!+\-*/&|\w<])(<=|>=|==|!=|<|>)(?![<>=])", c):
            o = m.group(1)
            if o in "<>" and re.search(r"[\w]\s*<\s*[\w:\s\*]+>", c) : continue
            for r in {"<": ["<=", ">"], ">": [">=", "<"], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="]}[o]:
                add(m.start(1), m.end(1), r)
        for m in re.finditer(r"&&|\|\|", c): add(m.start(), m.end(), "||" if m.group() == "&&" else "&&")
        for m in re.finditer(r"\+\+|--", c): add(m.start(), m.end(), "--" if m.group() == "++" else "++")
        for m in re.finditer(r"(?<=[\w\)\]] )[+\-](?= [\w\(])|(?<=[\w\)\]])[+\-](?=[\w\(])", c): add(m.start(), m.end(), "-" if m.group() == "+" else "+")
        for m in re.finditer(r"(\+|-)=", c): add(m.start(), m.end(), "-=" if m.group() == "+=" else "+=")
        for m in re.finditer(r"(?<![\w.])\d+(?![\w.])", c):
            add(m.start(), m.end(), str(int(m.group()) + 1))
            if int(m.group()) > 0: add(m.start(), m.end(), str(int(m.group()) - 1))
        for m in re.finditer(r"\b(true|false)\b", c): add(m.start(), m.end(), "false" if m.group() == "true" else "true")
        m = re.search(r"\b(if|while)\s*\((.*)\)\s*(\{|$|[\w*].*;)", c)
        if m: 
            add(m.start(2), m.end(2), "true" if m.group(1) == "if" else "false"); add(m.start(2), m.end(2), "false")
        if s.endswith(";") and not re.match(r"(return|const|int|bool|void|struct|Link|Node|auto|unsigned|size_t|mpz_t|\w+\s*\*?\s+\w+\s*[;=])", s) and "(" in s or re.match(r"^[\w\->\.\*\[\]]+\s*[\+\-]?=[^=].*;$", s):
            out.append((i, l, l[:len(l) - len(l.lstrip())] + ";"))
        if re.match(r"(break|continue);", s): out.append((i, l, l.replace(s, ";")))
    return out

def prep():
    src = W + "/src"
    shutil.rmtree(src, ignore_errors=True)
    sys.path.insert(0, VERIF); import build
    build.OUT = W + "/b0"
    exes = build.build({(d, "A") for d in ALL})
    base = [os.path.join(W + "/b0", x) for x in os.listdir(W + "/b0") if x.startswith("A-")][0]
    return base, exes

def run1(base, exes, f, idx, mut, secs, files_text):
    i, old, new = mut
    d = f"{W}/m{idx}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        stem = os.path.basename(f).split(".")[0]
        lines = files_text.split("\n"); lines[i] = new
        drvs = DRV.get(stem, ALL)
        if f.endswith(".cpp"):
            rel = f
            shutil.copytree(base + "/src", d + "/src")
            open(d + "/src/" + f, "w").write("\n".join(lines))
            o = d + "/x.o"
            p = subprocess.run(["g++"] + FLAGS + ["-I" + d + "/src", "-c", d + "/src/" + f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode: return "NOBUILD", ""
            libo = [os.path.join(base, x) for x in os.listdir(base) if re.match(r"(util|ginv)_.*\.cpp\.o$", x) and x != f.replace("/", "_") + ".o"] + [o]
            drvo = lambda dr: exes[dr, "A"] + ".o"
        else:
            shutil.copytree(base + "/src", d + "/src")
            open(d + "/src/" + f, "w").write("\n".join(lines))
            libo = []
            for x in sorted(os.listdir(base)):
                m = re.match(r"(util|ginv)_(.*\.cpp)\.o$", x)
                if not m: continue
                o = d + "/" + x
                p = subprocess.run(["g++"] + FLAGS + ["-I" + d + "/src", "-c", d + "/src/" + m.group(1) + "/" + m.group(2), "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode: return "NOBUILD", ""
                libo.append(o)
            def drvo(dr):
                o = d + "/" + dr + ".o"
                p = subprocess.run(["g++"] + FLAGS + ["-I" + d + "/src", "-I" + VERIF + "/harness", "-c", VERIF + "/harness/" + dr + ".cpp", "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode: raise RuntimeError("NOBUILD")
                return o
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:hard_rss_limit_mb=2000", UBSAN_OPTIONS="halt_on_error=1")
        for dr in drvs:
            x = d + "/exe"
            try: o = drvo(dr)
            except RuntimeError: return "NOBUILD", ""
            p = subprocess.run(["g++"] + FLAGS + [o] + libo + ["-o", x] + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode: return "NOBUILD", ""
            try:
                p = subprocess.run([x, "--seconds", str(secs), "--seed", str(idx + 1), "--err", d + "/e", "--cur", d + "/cur", "--out", d + "/o", "--cpu", "25"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=secs * 4 + 60)
            except subprocess.TimeoutExpired: return "KILLED", dr + " hang"
            try: v = json.load(open(d + "/o"))["violations"]
            except Exception: v = None
            if p.returncode or v or v is None:
                return "KILLED", dr + " " + (v[0]["key"] if v else f"rc {p.returncode} " + open(d + "/cur", errors="replace").read(60).strip("\0"))
        return "SURVIVED", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    a = argparse.ArgumentParser(); a.add_argument("files"); a.add_argument("--n", type=int, default=40); a.add_argument("--seed", type=int, default=1)
    a.add_argument("--secs", type=float, default=8); a.add_argument("--lines"); a.add_argument("--j", type=int, default=8)
    a = a.parse_args()
    base, exes = prep()
    todo = []
    for f in a.files.split(","):
        t = open("/repo/" + f).read()
        for m in mutants(t): todo.append((f, m, t))
    random.Random(a.seed).shuffle(todo)
    print(len(todo), "mutants, sampling", a.n, flush=True)
    todo = todo[:a.n]
    with cf.ThreadPoolExecutor(a.j) as ex:
        fs = {ex.submit(run1, base, exes, f, k, m, a.secs, t): (f, m) for k, (f, m, t) in enumerate(todo)}
        for r in cf.as_completed(fs):
            f, m = fs[r]
            try: st, why = r.result()
            except Exception as e: st, why = "ERROR", repr(e)[:200]
            print(f"{st}\t{f}:{m[0]+1}\t{m[1].strip()}\t=>\t{m[2].strip()}\t{why}", flush=True)
main()
