"""Command line: python3 check.py <property> [--tier quick|thorough] [--root /repo] [-v]"""
from __future__ import annotations

import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

RULES = {}
for _m, _ids in {
    "parse": ["C01", "C02", "C03", "C04", "C05", "C06"],
    "serial": ["C07", "C08"],
    "render": ["C09", "C10", "C11", "C12", "C13", "C14", "C17", "C18", "C19", "C22", "C23", "C24", "C26"],
    "static": ["C15", "C16", "C20", "C21", "C25"],
}.items():
    for _i in _ids:
        RULES[_i] = _m


def analyse(prop, root, overlay=None, tier="quick", ctx=None):
    from .ctx import Ctx, Report
    mod = importlib.import_module("vf.rules." + RULES[prop])
    C = ctx or Ctx(root, overlay)
    C.tier = tier
    C.prepare_marks()
    R = Report(prop)
    getattr(mod, prop.lower())(C, R)
    from .rules import oracle
    oracle.confirm(C, R)
    return C, R


def known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=" + prop + " "):
                out.append(line.split(" ", 2)[2])
    return out


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default="/repo")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    t0 = time.time()
    from .interp import AnchorMissing
    try:
        C, R = analyse(a.prop, a.root, tier=a.tier)
    except AnchorMissing as e:
        print(f"ERROR: nothing to analyse: {e}")
        return 2
    bad = [i for i in R.items if i[0] == "violation"]
    und = [i for i in R.items if i[0] == "undecided"]
    ok = [i for i in R.items if i[0] == "ok"]
    kn = known(a.prop)
    fresh, old = [], []
    for i in bad:
        (old if any(k.split(" :: ")[0] == f"{i[1]}/{i[2]}" for k in kn) else fresh).append(i)
    loc = lambda w: f"{w[0]}:{w[1]} in {w[2]}" if w else "?"
    ev = evidence(a.prop, a.tier, C, R, ok, und, fresh, old, time.time() - t0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evp = os.path.join(HERE, "evidence", a.prop + ".json")
    tmp = evp + f".{os.getpid()}.tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, evp)
    print(f"{a.prop}: {len(R.items)} obligations: {len(ok)} hold, {len(bad)} violated, {len(und)} undecided; "
          f"{C.paths} abstract paths, {len(C.E.modules)} modules, {time.time() - t0:.2f}s")
    if a.v:
        for i in und:
            print("  undecided:", i[1], "|", i[2], "|", i[3][:400], loc(i[4]))
    for i in old:
        print(f"KNOWN-FINDING: property={a.prop} {i[2]}: {i[3]}")
    if fresh:
        rp = os.path.join(HERE, "evidence", a.prop + ".violation.txt")
        with open(rp, "w") as f:
            for i in fresh:
                f.write(f"{loc(i[4])}: [{i[1]}] {i[2]}: {i[3]}\n")
        for i in fresh[:12]:
            print(f"  {loc(i[4])}: [{i[1]}] {i[2]}: {i[3]}")
        print(f"VIOLATION property={a.prop} replay={rp}")
        return 1
    if not ok:
        print("UNDECIDED: no obligation could be decided on this tree")
    return 0


def evidence(prop, tier, C, R, ok, und, fresh, old, wall):
    rules = {}
    for i in R.items:
        d = rules.setdefault(i[1], {"holds": 0, "violated": 0, "undecided": 0})
        d[{"ok": "holds", "violation": "violated", "undecided": "undecided"}[i[0]]] += 1
    return {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
        "coverage": {
            "explanation": "Static abstract interpretation of the current source: each obligation is decided from "
                           "the abstract paths of the named functions; nothing of the library is executed.",
            "obligations": len(R.items), "holds": len(ok), "undecided": len(und),
            "violated": len(fresh), "known_findings": len(old),
            "abstract_paths": C.paths, "modules_analysed": len(C.E.modules), "classes_analysed": len(C.E.classes),
            "rules": rules,
            "constant_elements": R.analysed.get("constants", {}),
            "decided": [f"{i[1]}: {i[2]}" for i in ok][:400],
            "undecided_obligations": [f"{i[1]}: {i[2]}: {i[3][:200]}" for i in und][:100],
        },
        "assumptions": [
            "dataclasses, copy, textwrap, str/list/dict methods, datetime and func_args behave as modelled in vf/calls.py and vf/models.py",
            "field values have the declared types; elements of content/marks are library models",
            "an undecided obligation is reported here and never as a violation",
        ],
        "violations": [f"{i[1]}: {i[2]}: {i[3]}" for i in fresh],
        "wall_s": round(wall, 3),
    }
