#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
from checks import CHECKS, NOTES, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash tools/setup.sh",
         hooks=dict(guard="cfg(nakamoto_verif)", enable='RUSTFLAGS="--cfg nakamoto_verif" (set by check.py and tools/env.sh)', source_commits=["a2ee8f0"]),
         checks=[dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                      technique=NOTES.get(p, ("TLA+ specification checked with TLC; recorded and generated traces of the real code validated against it",))[0],
                      level="model_checking", level_note=NOTES.get(p, (None, "Exhaustive TLC run of the specification at small bounds; conformance of the code by trace validation on generated and random schedules (bounded)."))[1])
                 for p in props if p in CHECKS],
         not_applicable=[dict(property=p, reason=NOT_APPLICABLE.get(p, "check under construction")) for p in props if p not in CHECKS])
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
