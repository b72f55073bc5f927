#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py and spec.py"""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS, NOT
from spec import SPEC

with open(f"{V}/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80 and p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids) and set(SPEC) <= set(ids), set(SPEC) - set(ids)
checks = [dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i} --tier thorough",
               technique="bounded symbolic execution of the compiled code's LLVM IR, decided by an SMT solver (z3)",
               level="model_checking",
               level_note="Within the bounds (" + SPEC[i]["bounds"] + ") every path of the real code is executed symbolically and every assertion decided by the solver; counterexamples are replayed natively before they are reported. Trusts the executor in symex/ (validated natively on sampled paths each run), rustc and z3."
               + (" Assumes: " + "; ".join(SPEC[i]["assumptions"]) if SPEC[i]["assumptions"] else ""))
          for i in ids if i in SPEC]
na = [dict(property=i, reason=NOT.get(i, "no check yet")) for i in ids if i not in SPEC]
m = dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na)
hooks = f"{V}/tools/hooks.json"
if os.path.exists(hooks):
    m["hooks"] = json.load(open(hooks))
with open(f"{V}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
