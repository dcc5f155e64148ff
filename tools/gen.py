#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, outputs are committed)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, note, hook=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=hook),
        _note=note, _tech=technique))
exec(open(os.path.join(here, "tools", "props_table.py")).read())
HOOKS = None
hp = os.path.join(here, "tools", "hooks.json")
if os.path.exists(hp): HOOKS = json.load(open(hp))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
    notes="Every check is one property function in harness/src/props driven by the choice-sequence engine in harness/src/engine.rs; `bash check.sh --replay FILE` re-runs a saved failing case.")
if HOOKS: m["hooks"] = HOOKS
for p in P:
    m["checks"].append(dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick",
        thorough_cmd=f"bash check.sh {p['id']} thorough", evidence_file=f"evidence/{p['id']}.json",
        technique=p["_tech"] or "property-based testing: generated inputs against an executable reference model, with shrinking",
        level="exploration", level_note=p["_note"]))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties")
