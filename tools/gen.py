#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "keyhive_core/src/principal/group.rs"
S = "keyhive_core/src/principal/group/state.rs"
O = "keyhive_core/src/principal/group/membership_operation.rs"
K = "keyhive_core/src/keyhive.rs"
D = "keyhive_core/src/principal/document.rs"
I = "keyhive_core/src/principal/individual.rs"
IS = "keyhive_core/src/principal/individual/state.rs"
IO = "keyhive_core/src/principal/individual/op.rs"
A = "keyhive_core/src/principal/active.rs"
BC = "beekem/src/cgka.rs"
BO = "beekem/src/operation.rs"
BT = "beekem/src/tree.rs"

# id, title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)], technique, level_note
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, observe=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe or [], na=na))

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            checks.append({"property": p["id"],
                           "quick_cmd": f"bin/check {p['id']} quick",
                           "thorough_cmd": f"bin/check {p['id']} thorough",
                           "evidence_file": f"evidence/{p['id']}.json",
                           "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
         "notes": "One Rust binary (mc/) that drives the real crates by path dependency; no hooks in /repo were needed. See DESIGN.md."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
main()
