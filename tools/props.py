#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, CP, I, P, H, C, F = "schedules crash_points inputs programs histories configurations fault_sequences".split()
ALL = [S, I, H, C, F]
P_ = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, note=None):
    assert len(title) <= 80, title
    P_.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
    P_[-1]["_na"] = na
    P_[-1]["_note"] = note

exec(open(os.path.join(ROOT, "tools", "props_table.py")).read())

TECH = "deterministic simulation with fault injection: seeded search over schedules, timings, faults and operation sequences of the real code on a simulated network and clock"
NOTE = ("Seeded search, not a proof. Real arpc code from the working tree runs on a patched Go scheduler with a virtual clock and a simulated network; "
        "preemption only at statement boundaries (and inside read-modify-write statements) of arpc code; no weak-memory effects; links keep TCP's contract unless a fault is injected. ")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P_:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
man = dict(version=1, setup_cmd="./build.sh", checks=[], not_applicable=[],
    notes="No hooks in /repo: the simulator instruments a copy of the working tree through a build overlay (tools/mkoverlay).")
for p in P_:
    if p["_na"]:
        man["not_applicable"].append(dict(property=p["id"], reason=p["_na"]))
    else:
        man["checks"].append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
            technique=TECH, level="exploration", level_note=NOTE + (p["_note"] or "")))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P_), "properties,", len(man["checks"]), "claimed")
