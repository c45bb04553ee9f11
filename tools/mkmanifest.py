"""Writes MANIFEST.json from the table below (run by hand; the result is committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = "Stateless model checking of the real library: every execution within the stated bound is run and judged by an independent oracle; says nothing about random streams, reactions or level files outside the bound."
CHECKS = {
    "C01": ("python3 mc/events.py C01", "stateless exploration of real executions (reactions x energies x streams, all 1-deviation streams) with a conservation monitor", NOTE),
    "C02": ("python3 mc/events.py C02", "stateless exploration of real executions with a momentum-balance monitor", NOTE),
    "C03": ("python3 mc/events.py C03", "stateless exploration of real executions with an energy-balance monitor", NOTE),
    "C04": ("python3 mc/events.py C04", "stateless exploration of real executions against a sequential-emission kinematics model", NOTE),
    "C05": ("python3 mc/events.py C05", "stateless exploration of real executions with a well-formedness monitor", NOTE),
}
try:
    from extra_checks import EXTRA
    CHECKS.update(EXTRA)
except ImportError:
    pass
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 mc/build.py",
     "checks": [{"property": p, "quick_cmd": CHECKS[p][0], "thorough_cmd": CHECKS[p][0] + " --thorough", "technique": "model checking: " + CHECKS[p][1],
                 "level": CHECKS[p][3] if len(CHECKS[p]) > 3 else "model_checking", "level_note": CHECKS[p][2]} for p in ids if p in CHECKS],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in ids if p not in CHECKS],
     "notes": "No hooks in /repo: the checks build the unmodified tree and drive its public C++, C, command-line and Python interfaces."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
