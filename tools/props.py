#!/usr/bin/env python3
"""The property list.  Writes properties.jsonl and MANIFEST.json (run after editing: python3 tools/props.py)."""
import glob, json, os, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []
INPUT, HIST, SCHED, CRASH, CONF, FAULT = "inputs", "histories", "schedules", "crash_points", "configurations", "fault_sequences"


def P(id, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    PROPS.append((dict(
        id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={"files": ["util/" + f for f in files], "state": [{"name": a, "meaning": b} for a, b in (state or [])],
                 "mechanism": [{"name": a, "where": "util/" + b} for a, b in mech], "observe_at": observe or ["return values and contents of the public interface"],
                 "hook_needed": None}), note))


def N(id, reason):
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(ROOT, "tools", "proplist.py")).read())

TECH = "contract-based deductive verification: contracts over the real code compiled to LLVM IR, weakest-precondition style VCs by symbolic execution with inferred-and-proved loop invariants, discharged by z3/cvc5"
if __name__ == "__main__":
    ids = [p["id"] for p, _ in PROPS]
    assert len(set(ids)) == len(ids)
    na = {n["property"] for n in NA}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _ in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            for x in p["anchors"]["files"]:
                assert os.path.exists("/repo/" + x), x
            for m in p["anchors"]["mechanism"]:
                assert os.path.exists("/repo/" + m["where"].split(":")[0]), m
            f.write(json.dumps(p) + "\n")
    checks, nas = [], list(NA)
    for p, note in PROPS:
        if p["id"] in na:
            continue
        if not glob.glob(os.path.join(ROOT, "contracts", p["id"] + "*.cc")):
            nas.append({"property": p["id"], "reason": "no contract built yet"})
            continue
        srcs = [open(f).read() for f in glob.glob(os.path.join(ROOT, "contracts", p["id"] + "*.cc")) if "_hist" not in f]
        pats = [x for t in srcs for x in re.findall(r"^//\s*vp-bounded\s+(\S+)", t, re.M)]
        cons = [x for t in srcs for x in re.findall(r"^VP_CONTRACT(?:_T)?\((\w+)\)", t, re.M)]
        level = "proof" if any(not any(re.fullmatch(q, c) for q in pats) for c in cons) else "other"
        checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": TECH, "level": level, "level_note": note})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": nas}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(PROPS), "properties", len(checks), "checks", len(nas), "not applicable")
