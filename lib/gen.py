#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props.py and lib/specs.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
import specs

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{ROOT}/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
ids = {p["id"] for p in PROPS}
assert set(specs.SPECS) <= ids, set(specs.SPECS) - ids
checks = []
for p in PROPS:
    s = specs.SPECS.get(p["id"])
    if not s:
        continue
    note = f"Bounded symbolic execution, all values within: {s['bounds']}"
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.py {p['id']} --tier quick",
        "thorough_cmd": f"./check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "bounded model checking of the real Rust code with Kani/CBMC: symbolic inputs, SAT solver verdict, "
                     "native replay of counterexamples",
        "level": s.get("level", "other"),
        "level_note": note,
    })
na = [{"property": p, "reason": r} for p, r in specs.NOT_APPLICABLE.items()]
missing = ids - set(specs.SPECS) - set(specs.NOT_APPLICABLE)
assert not missing, missing
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "The checks need no change to the repository's sources.", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check is solver-based (Kani/CBMC/CaDiCaL). known_findings.json lists genuine defects, fixed or known.",
}, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks,", len(na), "not applicable")


# planted bugs that other checks than that of their property catch, or none
CAUGHT = {}


def section(text, name, lines):
    head, rest = text.split(f"<!-- {name} -->\n")
    _, tail = rest.split(f"<!-- /{name} -->")
    return f"{head}<!-- {name} -->\n" + "".join(l + "\n" for l in lines) + f"<!-- /{name} -->{tail}"


findings = specs.known_findings()
text = open(f"{ROOT}/DESIGN.md").read()
text = section(text, "fixed", [f"* {f['property']} (`{f['commit'][:7]}`): " + f["entry"].split(" ", 3)[3]
                               for f in findings if f["status"] == "fixed"])
text = section(text, "known", [f"* {f['property']} (`{f['harness']}`): {f['what']}" for f in findings if f["status"] == "known"])
rows = ["| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {', '.join(CAUGHT.get(d, [m['property']]))} |")
text = section(text, "seeds", rows)
open(f"{ROOT}/DESIGN.md", "w").write(text)
