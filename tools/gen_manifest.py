"""Write MANIFEST.json from the check modules (run with /opt/venv python)."""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
checks, missing = [], []
for line in open(os.path.join(here, "properties.jsonl"), encoding="utf-8"):
    pid = json.loads(line)["id"]
    if not os.path.isfile(os.path.join(
            here, "mc", "props", pid.lower() + ".py")):
        missing.append({"property": pid, "reason": "check is not built yet"})
        continue
    m = importlib.import_module("mc.props." + pid.lower())
    note = getattr(m, "NOTE", (m.__doc__ or "").strip())
    checks.append({
        "property": pid,
        "quick_cmd": "bash check.sh %s --tier quick" % pid,
        "thorough_cmd": "bash check.sh %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": m.TECHNIQUE.replace("\n", " "),
        "level": "model_checking",
        "level_note": " ".join(note.split()) + " Holds for everything within "
        "the bounds in the evidence file; trusts netCDF4, numpy, the file "
        "system and the synthetic convention folder."})
out = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
       "not_applicable": missing,
       "notes": "No hooks: the checks drive the unmodified package in a copy "
                "of the current working tree of /repo with a synthetic "
                "convention folder (mc/fixture.py)."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "missing")
