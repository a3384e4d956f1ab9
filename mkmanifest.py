"""regenerates MANIFEST.json from the modules in mc/props and the notes below"""
import json
import os

NOTES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "notes.json")))
checks = []
for pid, n in sorted(NOTES.items()):
    if not os.path.exists(f"mc/props/{pid.lower()}.py"):
        continue
    checks.append(dict(
        property=pid, quick_cmd=f"/opt/venv/bin/python -m mc.run {pid} --tier quick", thorough_cmd=f"/opt/venv/bin/python -m mc.run {pid} --tier thorough",
        evidence_file=f"evidence/{pid}.json", technique=n["technique"], level="model_checking", level_note=n["note"]))
na = [dict(property=json.loads(l)["id"], reason="check not built yet") for l in open("properties.jsonl") if json.loads(l)["id"] not in {c["property"] for c in checks}]
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -m mc.selftest", checks=checks, not_applicable=na,
               notes="No hooks are needed in /repo: the checks drive the public API of the working tree in place. See DESIGN.md."), open("MANIFEST.json", "w"), indent=1)
