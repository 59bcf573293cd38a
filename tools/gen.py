#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (run after editing)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, technique="", note=""):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, technique, note))


SAN = "All of it runs under AddressSanitizer and UndefinedBehaviorSanitizer. "
TRUST = "Exploration: holds on the executions of the run; trusts the oracle in harness/ and GMP. "

exec(open(os.path.join(HERE, "tools", "texts.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + "\n")
checks = []
for p, tech, note in P:
    assert p["id"] in PROPS, p["id"]
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                   "technique": "runtime monitoring: " + tech, "level": "exploration", "level_note": note})
assert {p["id"] for p, _, _ in P} == set(PROPS), set(PROPS) ^ {p["id"] for p, _, _ in P}
m = {"version": 1, "setup_cmd": "python3 build.py d_misc:A", "checks": checks, "not_applicable": [],
     "notes": "No hooks are added to /repo: every monitor observes through the public interface. /repo's commits are repairs of genuine defects (known-findings.txt)."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties")
