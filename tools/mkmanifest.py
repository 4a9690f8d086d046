"""Writes MANIFEST.json from the list of implemented checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
import check
from notes import NOTES
PY = "/opt/vp/venv/bin/python"
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1,
     "setup_cmd": f"{PY} harness/build.py && mkdir -p evidence",
     "hooks": {"guard": "HUMANLEAGUE_VERIF", "enable": "harness/build.py compiles the sources containing the guard a second time with -DHUMANLEAGUE_VERIF into a "
               "separate module; only C11 and C12 use it, to start sequences at far positions (environment HUMANLEAGUE_SOBOL_SEEK)",
               "source_commits": ["44d4f26"]},
     "checks": [{"property": p, "quick_cmd": f"{PY} harness/check.py {p}", "thorough_cmd": f"{PY} harness/check.py {p} thorough",
                 "technique": NOTES[p][0], "level": "model_checking", "level_note": NOTES[p][1]}
                for p in props if p in check.CHECKS],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in check.CHECKS],
     "notes": "TLA+ specification in spec/, checked with TLC; conformance by validating records of the freshly built implementation "
              "(Python extension and R shared object) against it. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
