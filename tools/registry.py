#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, level="proof", note="", tech=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, level=level, note=note, tech=tech, na=na, observe=observe or []))

TECH = "contract-based deductive verification (govc: weakest preconditions of the real Go source over SMT); bounded replay harness for failing inputs"
COMMON = " Trusted: govc's translation of Go (integers as mathematical integers with range checks left out, partial correctness, no concurrency), z3 and cvc5, and the assumed contracts of the dependencies that the evidence file lists."

exec(open(os.path.join(here, "tools", "props.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "./setup.sh",
  "hooks": {"guard": "verif", "enable": "no hooks: contracts live in /verif/contracts and are checked against /repo's own source; harnesses go in through go test -overlay", "source_commits": []},
  "checks": [], "not_applicable": [],
  "notes": "Every check runs govc on /repo's current source, and a bounded harness that looks for an input to replay when an obligation fails. See DESIGN.md."}
for p in P:
    if p["na"]:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        man["checks"].append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"] or TECH, "level": p["level"], "level_note": p["note"] + COMMON})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
