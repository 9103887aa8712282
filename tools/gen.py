#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, qtext, why, files, mech, claimed=True, technique=None, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, state=state or []))

TECH = "bounded symbolic execution of the Go SSA with SMT (z3/cvc5)"
NOTE = ("Every path of the real functions within the harness bounds is executed symbolically from go/ssa built from /repo's tree; each "
        "assertion and run-time panic is an SMT query over all values. Trusted: go/ssa, the interpreter (cross-checked by running solver "
        "models natively), z3/cvc5. Nothing is claimed outside the bounds, which the evidence file lists.")
exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        o = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None))
        if p["state"]:
            o["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        assert len(o["title"]) <= 80, o["title"]
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash ./setup", checks=[], not_applicable=[],
         notes="solver-based checking of the real code; see DESIGN.md. ./replay PROPERTY FILE re-runs a reported counterexample natively.")
for p in P:
    if p["na"]:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="./check " + p["id"], thorough_cmd="VERIF_TIER=thorough ./check " + p["id"],
                            evidence_file="evidence/%s.json" % p["id"], technique=p["technique"] or TECH, level="model_checking",
                            level_note=p["note"] or NOTE))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
