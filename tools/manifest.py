"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(V / "tools")]
PY = "/opt/vp/venv/bin/python"
NA = {}
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
notes = json.loads((V / "tools/levels.json").read_text())
for p in props:
    i = p["id"]
    if (V / "checks" / f"{i.lower()}.py").exists() and i in notes:
        checks.append({"property": i, "quick_cmd": f"{PY} run.py {i}", "thorough_cmd": f"{PY} run.py {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": notes[i][0], "level": "exploration",
                       "level_note": notes[i][1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": f"{PY} lib/vbuild.py rel", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks build its sources out of tree against shim/ (declarations of the SCIP C API, a small "
              "pybind11 stand-in) and the libscip of the PySCIPOpt wheel."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
