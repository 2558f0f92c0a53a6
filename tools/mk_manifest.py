"""Writes MANIFEST.json from the property modules that exist."""
import importlib
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = ["/repo", str(ROOT)]
TECH = {
    "default": "bounded explicit-state model checking: exhaustive enumeration of programs x inputs executed on the real code, "
               "each trace compared with an independent reference model",
}
checks, na = [], []
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    pid = json.loads(line)["id"]
    if not (ROOT / f"mc/props/{pid.lower()}.py").exists():
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    m = importlib.import_module(f"mc.props.{pid.lower()}")
    checks.append({
        "property": pid,
        "quick_cmd": f"./check {pid} quick",
        "thorough_cmd": f"./check {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": getattr(m, "TECHNIQUE", TECH["default"]),
        "level": "model_checking",
        "level_note": "Exhaustive within stated bounds on the real code: " + m.RULE + ". Assumes: " + "; ".join(m.ASSUMPTIONS),
    })
out = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m compileall -q mc", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo. ./check --replay FILE re-runs a recorded violation. See DESIGN.md."}
(ROOT / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
