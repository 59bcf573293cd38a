"""The Python side of vh.hpp: seeded cases, oracles that raise, counters, CPU watchdog, report."""
import array, hashlib, json, os, random, signal, sys, time, traceback

sys.dont_write_bytecode = True


class Fail(Exception):
    def __init__(self, key, msg=""):
        Exception.__init__(self, key)
        self.key, self.msg = key, msg


class Skip(Exception):
    pass


S = {"checks": 0, "count": {}, "dig": set(), "samples": [], "cur": ""}


def count(k, n=1):
    S["count"][k] = S["count"].get(k, 0) + n


def seen(s):
    s = str(s)
    if len(S["dig"]) < 2000000:
        S["dig"].add(int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), "little"))
    if len(S["samples"]) < 4:
        S["samples"].append(s[:300])


def desc(s):
    S["cur"] += str(s)


def ok(c, key, msg=""):
    S["checks"] += 1
    if not c:
        raise Fail(key, str(msg() if callable(msg) else msg)[:3000])


def raises(exc, key, f):
    S["checks"] += 1
    try:
        f()
    except exc:
        return
    raise Fail(key)


def main(scenarios, library):
    """scenarios: {name: (function(rng, size), weight, maxsize)}; library: text that marks files of the code under test."""
    a = {"seed": 1, "shard": 0, "nshards": 1, "seconds": 10.0, "max": 0, "cpu": 60, "out": "", "cur": "", "err": "", "case": "", "only": ""}
    v = sys.argv[1:]
    for k, x in zip(v[::2], v[1::2]):
        k = k[2:]
        a[k] = type(a[k])(x)
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    if a["err"]:
        f = os.open(a["err"], os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o644)
        os.dup2(f, 2)
    if a["out"]:
        f = os.open(os.devnull, os.O_WRONLY)
        os.dup2(f, 1)
    curf = os.open(a["cur"], os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644) if a["cur"] else -1
    wheel = [n for n, (f, w, m) in scenarios.items() if not a["only"] or n in a["only"].split(",") for _ in range(w)]
    if not wheel:
        sys.exit(2)
    viol, per, slow = [], {}, (0, "")
    t0, cases = time.monotonic(), 0

    def doit(name, cs, size):
        nonlocal cases, slow
        cid = "%s:%d:%d" % (name, cs, size)
        if curf >= 0:
            os.pwrite(curf, cid.encode().ljust(250, b"\0"), 0)
        cases += 1
        per[name] = per.get(name, 0) + 1
        S["cur"] = ""
        c0 = time.process_time()
        signal.setitimer(signal.ITIMER_PROF, a["cpu"])
        try:
            scenarios[name][0](random.Random(cs), size)
        except Fail as e:
            viol.append({"case": cid, "key": e.key, "msg": e.msg, "desc": S["cur"][:20000]})
        except Skip as e:
            count("skip:" + str(e))
        except (Exception, RecursionError) as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = next(("%s:%s" % (os.path.basename(t.filename), t.name) for t in reversed(tb) if library in t.filename), "")
            viol.append({"case": cid, "key": "exception:%s" % type(e).__name__ + (":" + where if where else ""),
                         "msg": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:], "desc": S["cur"][:20000]})
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        slow = max(slow, (time.process_time() - c0, cid))

    if a["case"]:
        n, cs, sz = a["case"].split(":")
        doit(n, int(cs), int(sz))
    else:
        master = random.Random(a["seed"] * 1000003 + 17)
        i = 0
        while time.monotonic() - t0 <= a["seconds"] and len(viol) < 5 and not (a["max"] and i >= a["max"]):
            cs, sz = master.getrandbits(60), master.getrandbits(30)
            if i % a["nshards"] == a["shard"]:
                name = wheel[(i // a["nshards"]) % len(wheel)]
                lim = min(scenarios[name][2], i // a["nshards"] // len(wheel) + 1)
                doit(name, cs, 1 + sz % lim)
            i += 1
    r = {"cases": cases, "checks": S["checks"], "count": S["count"], "scenarios": per, "samples": S["samples"], "violations": viol,
         "wall": time.monotonic() - t0, "slowest": "%s %.2f" % (slow[1], slow[0])}
    if a["out"]:
        with open(a["out"], "w") as f:
            json.dump(r, f)
        with open(a["out"] + ".dig", "wb") as f:
            array.array("Q", sorted(S["dig"])).tofile(f)
        sys.stdout.flush()
        os._exit(1 if viol else 0)
    print(json.dumps(r, indent=1))
