"""Write properties.jsonl and MANIFEST.json.  usage: gen.py  (claims only checks whose module exists)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "meta"))
import props  # noqa: E402

NOTE = ("bounded: z3 decides every assertion over all values on every explored path of the current source within the bounds in "
        "evidence; real arithmetic instead of IEEE doubles; counterexamples are replayed on the real package before being reported")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        **({"observe_at": p["observe"]} if p["observe"] else {})}}) + "\n")
checks, na = [], []
for p in props.P:
    m = p["module"]
    if m and os.path.exists(os.path.join(HERE, "checks", m + ".py")):
        checks.append({"property": p["id"], "quick_cmd": f"python3-vt symx/run.py {m} quick",
                       "thorough_cmd": f"python3-vt symx/run.py {m} thorough",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": "symbolic execution of the Python source with z3 (bounded), counterexample replay",
                       "level": "model_checking", "level_note": (p["note"] + "; " if p["note"] else "") + NOTE})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3, numpy, yaml' && /opt/venv/bin/python -c 'import numba'",
               "checks": checks, "not_applicable": na,
               "notes": "checks read /repo's current source on every run; nothing is built"}, f, indent=1)
print(len(checks), "claimed,", len(na), "not applicable")

try:
    import jsonschema
    sp = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props.P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    for ln in open(os.path.join(HERE, "properties.jsonl")):
        jsonschema.validate(json.loads(ln), sp)
    jsonschema.validate(json.load(open(os.path.join(HERE, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
except FileNotFoundError:
    pass
