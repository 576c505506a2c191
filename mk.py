#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in catalogue.py"""
import json, os, re
from catalogue import P, NA
V = os.path.dirname(os.path.abspath(__file__))
TECH = "static analysis: relational abstract interpretation (linear inequalities + memory cells) of the LLVM IR of universally quantified drivers"
NOTE = ("Every obligation is shown unreachable by an over-approximating fixpoint over the IR the library headers compile to, for all "
        "inputs of the listed instantiations; loops by inductive invariants, no unrolling bound. Trusts clang/LLVM 18, tools/vsan.cpp and "
        "the drivers' reading of the property.")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert re.match(r"^[A-Z][0-9]{2,3}$", p["id"]) and len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p.get("over", ["inputs"]), text=p["quant"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
na = {n[0]: n[1] for n in NA}
checks = []
for p in P:
    if p["id"] in na:
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}",
                       thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                       technique=p.get("tech", TECH), level=p.get("level", "proof"), level_note=p.get("note", NOTE)))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in na.items()]),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")

# the table of planted bugs in DESIGN.md
sd = os.path.join(V, "seeded")
if os.path.isdir(sd):
    rows = ["| id | check that catches it | what it breaks |", "|----|----|----|"]
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} |")
    t = open(os.path.join(V, "DESIGN.md")).read()
    t = re.sub(r"(<!-- seeded -->\n).*(<!-- /seeded -->)", lambda x: x.group(1) + "\n".join(rows) + "\n" + x.group(2), t, flags=re.S)
    open(os.path.join(V, "DESIGN.md"), "w").write(t)
