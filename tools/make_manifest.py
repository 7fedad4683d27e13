#!/usr/bin/python3
"""Writes MANIFEST.json from plan.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from plan import PLAN, TECH, NOTES
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
NA = {
	"C15": "A statistical claim about how well a pure function detects upscaling in typical images: it depends on no schedule, clock, fault, history or other party, so there is nothing for a simulator to control, and no exact oracle.",
	"C16": "A pure numerical equality between build configurations for one input, with no schedule, fault or history for a simulator to decide. (C08 still compares every session with an independent transform, on KISS FFT, FFTW and double precision builds.)",
}
for i in ids:
	if i not in PLAN and i not in NA: NA[i] = "Not built yet."
m = dict(version=1, setup_cmd="python3 build.py",
	checks=[dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i, technique=TECH, level="exploration", level_note=NOTES.get(i, NOTES["*"])) for i in ids if i in PLAN],
	not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA],
	notes="No hooks are needed in /repo: every seam is made outside it (objcopy on the compiled objects, fopencookie streams, edge-coverage callbacks).")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
