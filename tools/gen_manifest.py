"Write MANIFEST.json from the META of the existing checks."
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib.metaload import load

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
        missing.append({"property": pid, "reason": "no check has been built for it yet"})
        continue
    m = load(pid)
    checks.append({
        "property": pid,
        "quick_cmd": f"python3-vt -B check.py {pid} --tier quick",
        "thorough_cmd": f"python3-vt -B check.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": m["technique"],
        "level": m["level"],
        "level_note": m["level_note"],
    })
man = {
    "version": 1,
    "setup_cmd": "python3-vt -B tools/setup.py",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo: the checks drive the public API of the working tree through a scripted C child that each run compiles into its own scratch directory.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", "missing:", " ".join(x["property"] for x in missing))
