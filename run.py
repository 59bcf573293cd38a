#!/usr/bin/env python3
"""Check one property of GInv:  run.py PROPERTY [--tier quick|thorough] [--seed N]
   Replay one recorded violation:  run.py --replay FILE

Exit 0: no monitor fired. Exit 1: a line "VIOLATION property=<id> replay=<path>" was
printed. Exit 2: the check itself could not run (for example a build error).
"""
import argparse, array, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import build
from props import PROPS

PY = "/usr/bin/python3"
ASAN = "detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=3000:max_allocation_size_mb=2000:detect_stack_use_after_return=0:malloc_context_size=12:allocator_may_return_null=0"
UBSAN = "print_stacktrace=1:halt_on_error=1:exitcode=98"


def env_for(cfg):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ASAN
    e["UBSAN_OPTIONS"] = UBSAN
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["LC_ALL"] = "C.UTF-8"
    return e


def tail(path, n=6000):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            k = f.tell()
            f.seek(max(0, k - n))
            return f.read().decode(errors="replace")
    except OSError:
        return ""


def crash_key(rc, err):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        return "asan:" + m.group(1)
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        return "ubsan:" + re.sub(r"[0-9a-fx]{4,}|-?\d+", "N", m.group(1))[:80]
    if "VH-TIMEOUT" in err or rc in (77, -signal.SIGPROF):
        return "hang"
    if "hard rss limit" in err:
        return "memory-explosion"
    if rc < 0:
        return "signal:" + signal.Signals(-rc).name
    m = re.search(r"== (Invalid [^\n]*|Conditional jump[^\n]*|Use of uninit[^\n]*|Syscall param[^\n]*|Mismatched[^\n]*)", err)
    if m:
        return "memcheck:" + m.group(1)[:60]
    if rc == 0:
        return "unexpected-exit"
    return "exit:%d" % rc


class Shard:
    def __init__(self, job, exe, k, n, seed, seconds, work, extra=()):
        self.job, self.k = job, k
        b = os.path.join(work, "%s-%s-%d" % (job["driver"], job.get("tag", job.get("cfg", "py")), k))
        self.out, self.cur, self.err = b + ".json", b + ".cur", b + ".err"
        self.cfg = job.get("cfg", "py")
        args = ["--seed", str(seed), "--shard", str(k), "--nshards", str(n), "--seconds", str(seconds),
                "--out", self.out, "--cur", self.cur, "--err", self.err, "--cpu", str(job.get("cpu", 60))]
        if job.get("only"):
            args += ["--only", job["only"]]
        if job.get("max"):
            args += ["--max", str(job["max"])]
        args += list(extra)
        self.cmd = command(job, exe) + args
        env = env_for(self.cfg)
        env.update(job_env(job, exe))
        self.log = open(b + ".log", "wb")
        self.p = subprocess.Popen(self.cmd, stdout=self.log, stderr=subprocess.STDOUT, env=env, cwd=work)
        self.deadline = time.time() + seconds * 3 + 240

    def finish(self):
        try:
            rc = self.p.wait(max(1, self.deadline - time.time()))
            wall = False
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            rc, wall = 77, True
        self.log.close()
        try:
            with open(self.out) as f:
                res = json.load(f)
        except (OSError, ValueError):
            res = None
        err = tail(self.err) + tail(self.log.name)
        if res is None or rc not in (0, 1):
            cur = tail(self.cur).strip("\0\n ")
            if rc == 2:
                raise build.BuildError("driver could not start: %s\n%s" % (" ".join(self.cmd), err))
            if wall:
                # the shard as a whole did not come back: machine trouble unless one case hangs,
                # and a hanging case is ended by its own CPU limit
                raise build.BuildError("shard did not finish in time: " + cur)
            res = res or {"cases": 0, "checks": 0, "count": {}, "scenarios": {}, "samples": [], "violations": []}
            res["violations"] = res["violations"] + [{"case": cur, "key": crash_key(rc, err), "msg": err[-3500:], "desc": ""}]
        return res

    def digests(self):
        a = array.array("Q")
        try:
            with open(self.out + ".dig", "rb") as f:
                a.frombytes(f.read())
        except (OSError, ValueError):
            pass
        return a


def command(job, exe):
    if job["kind"] == "cpp":
        if job.get("valgrind"):
            return ["valgrind", "--tool=memcheck", "--error-exitcode=96", "--exit-on-first-error=yes", "--leak-check=no",
                    "--undef-value-errors=yes", "--track-origins=no", "-q", exe]
        return [exe]
    return [PY, os.path.join(HERE, "harness", job["driver"] + ".py")]


def job_env(job, exe):
    if job["kind"] == "cython":
        libs = []
        for n in ("libasan.so", "libubsan.so"):
            libs.append(subprocess.run(["gcc", "-print-file-name=" + n], stdout=subprocess.PIPE).stdout.decode().strip())
        return {"LD_PRELOAD": " ".join(os.path.realpath(x) for x in libs), "GINV_MOD": exe, "PYTHONMALLOC": "malloc"}
    if job["kind"] == "python":
        return {"GINV_PY": os.path.join(build.REPO, "pyginv")}
    return {}


def executables(jobs):
    want = {(j["driver"], j["cfg"]) for j in jobs if j["kind"] == "cpp"}
    exes = build.build(want) if want else {}
    cy = build.build_cython() if any(j["kind"] == "cython" for j in jobs) else None
    return [exes[j["driver"], j["cfg"]] if j["kind"] == "cpp" else cy for j in jobs]


def known_findings():
    r = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) case=(\S+) (.*)", l)
            if m:
                r.append({"property": m.group(1), "key": m.group(2), "case": m.group(3), "text": m.group(4).strip()})
    return r


def run_property(pid, tier, seed):
    t0 = time.time()
    spec = PROPS[pid]
    jobs = [j for j in spec["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]
    exes = executables(jobs)
    work = tempfile.mkdtemp(prefix="ginv-%s-" % pid)
    viol, res, digs = [], [], set()
    try:
        shards = []
        for j, exe in zip(jobs, exes):
            n = j.get("shards", 8) if tier == "quick" else j.get("tshards", j.get("shards", 8))
            sec = j.get("quick", 10) if tier == "quick" else j.get("thorough", 300)
            for k in range(n):
                shards.append(Shard(j, exe, k, n, seed, sec, work))
        for s in shards:
            r = s.finish()
            for v in r["violations"]:
                viol.append((s.job, v))
            res.append((s.job, r))
            digs.update(s.digests())
    finally:
        shutil.rmtree(work, ignore_errors=True)

    # A single case over its CPU or memory allowance may just be an expensive input; where a job says so,
    # several are needed before it counts as not terminating.
    for j in jobs:
        hm = j.get("hang_min", 1)
        h = [x for x in viol if x[0] is j and x[1]["key"] in ("hang", "memory-explosion")]
        if h and len(h) < hm:
            print("note: %d case(s) stopped at the CPU or memory limit: %s" % (len(h), ", ".join(x[1]["case"] for x in h)))
            viol = [x for x in viol if x not in h]
            res[0][1]["count"]["stopped_at_limit"] = res[0][1]["count"].get("stopped_at_limit", 0) + len(h)

    known = [k for k in known_findings() if k["property"] == pid]
    fresh, seen_known = [], set()
    for j, v in viol:
        hit = next((k for k in known if k["key"] == v["key"] and re.fullmatch(k["case"], v["case"])), None)
        if hit:
            if hit["text"] not in seen_known:
                seen_known.add(hit["text"])
                print("KNOWN-FINDING: property=%s %s" % (pid, hit["text"]))
        else:
            fresh.append((j, v))

    count, scen, samples = {}, {}, []
    for j, r in res:
        for k, n in r["count"].items():
            count[k] = count.get(k, 0) + n
        for k, n in r["scenarios"].items():
            scen[k] = scen.get(k, 0) + n
        samples += r["samples"][:3]
    cases = sum(r["cases"] for _, r in res)
    checks = sum(r["checks"] for _, r in res)
    samples = samples[:12]
    samples = ["%s" % s for s in samples]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": checks,
            "distinct_nontrivial": len(digs),
            "rule": spec["rule"] + " Cases per scenario: " + json.dumps(scen, sort_keys=True)
                    + ". Events counted by the monitors: " + json.dumps(count, sort_keys=True) + ".",
            "samples": samples,
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write("\n")
    print("%s %s: %d cases, %d oracle evaluations, %d distinct observations, %.1f s" % (pid, tier, cases, checks, len(digs), time.time() - t0))

    if fresh:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        done = set()
        for j, v in fresh:
            if (v["key"], v["case"].split(":")[0]) in done or len(done) >= 4:
                continue
            done.add((v["key"], v["case"].split(":")[0]))
            path = os.path.join(HERE, "replays", "%s-%d.json" % (pid, len(done)))
            with open(path, "w") as f:
                json.dump({"property": pid, "job": j, "case": v["case"], "key": v["key"], "msg": v["msg"], "desc": v["desc"],
                           "how": "python3 /verif/run.py --replay " + path}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  case %s: %s: %s" % (v["case"], v["key"], v["msg"][:600]))
        return 1
    if cases == 0:
        print("no case was executed")
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    j = d["job"]
    exe = executables([j])[0]
    work = tempfile.mkdtemp(prefix="ginv-replay-")
    try:
        s = Shard(j, exe, 0, 1, 1, 1, work, ["--case", d["case"]])
        r = s.finish()
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for v in r["violations"]:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        print("%s: %s\n%s" % (v["key"], v["msg"], v["desc"]))
    if not r["violations"]:
        print("the recorded case passes on this tree")
    return 1 if r["violations"] else 0


def main():
    a = argparse.ArgumentParser()
    a.add_argument("property", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a.add_argument("--replay")
    o = a.parse_args()
    try:
        if o.replay:
            return replay(o.replay)
        if o.property not in PROPS:
            print("unknown property", o.property)
            return 2
        return run_property(o.property, o.tier, o.seed)
    except build.BuildError as e:
        print("the check could not run:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
