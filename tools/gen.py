#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []

def P(id, title, statement, over, text, why, files, mech, observe, note, claimed=True, state=None, technique=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": "none"}
    if state: a["state"] = state
    props.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
    if claimed:
        checks.append({"property": id, "quick_cmd": f"./check.sh {id} quick", "thorough_cmd": f"./check.sh {id} thorough",
            "evidence_file": f"evidence/{id}.json", "technique": technique or "runtime monitoring: generated workloads on the real code, online oracle, race detector",
            "level": "exploration", "level_note": note})

exec(open(os.path.join(ROOT, "tools", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props: f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./setup.sh",
        "hooks": {"guard": "verif", "enable": "no hook is needed: the checks build /repo as it is; the perturbed builds put generated copies of the sources in through go build -overlay", "source_commits": []},
        "checks": checks, "not_applicable": na}, f, indent=1, ensure_ascii=False); f.write("\n")
