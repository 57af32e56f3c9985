#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, state=(), observe=(), claim=True, level="model_checking",
      technique="", note="", reason="", hook=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      state=state, observe=observe, claim=claim, level=level, technique=technique, note=note,
                      reason=reason, hook=hook))


exec((V / "tools" / "table.py").read_text())

with open(V / "properties.jsonl", "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                         "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]],
                         "observe_at": list(p["observe"]), "hook_needed": p["hook"]}}
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")

man = {"version": 1, "setup_cmd": "bash setup.sh",
       "hooks": {"guard": "none", "enable": "no hooks: the checks drive /repo's public entry points unmodified",
                 "source_commits": []},
       "checks": [], "not_applicable": []}
for p in PROPS:
    if p["claim"] and (V / "checks" / f"{p['id']}.py").exists():
        man["checks"].append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']}",
                              "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p['id']}",
                              "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": p["reason"] or "check not built yet"})
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")

try:
    import jsonschema
    s = json.load(open("/root/.vp/MANIFEST.schema.json"))
    jsonschema.validate(man, s)
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(V / "properties.jsonl"):
        jsonschema.validate(json.loads(line), s)
    print("schemas ok", len(PROPS), "properties", len(man["checks"]), "claimed")
except ImportError:
    pass
