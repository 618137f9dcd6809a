"""Rewrite MANIFEST.json from properties.jsonl, checks/ and the notes below."""

import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, "/repo/src")
os.chdir("/tmp")

checks, missing = [], []
with open(os.path.join(HERE, "properties.jsonl")) as fh:
    props = [json.loads(line) for line in fh if line.strip()]
for p in props:
    cid = p["id"]
    if not os.path.exists(os.path.join(HERE, "checks", cid.lower() + ".py")):
        missing.append({"property": cid, "reason": "no check has been built yet"})
        continue
    mod = importlib.import_module("checks." + cid.lower())
    note = (
        "Generated-input search, not a proof: the property held on every case of the run. "
        "Assumes: " + "; ".join(mod.ASSUMPTIONS) + "."
    )
    checks.append(
        {
            "property": cid,
            "quick_cmd": f"VERIF_TIER=quick bash check.sh {cid}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {cid}",
            "evidence_file": f"evidence/{cid}.json",
            "technique": getattr(
                mod, "TECHNIQUE", "property-based testing (Hypothesis) against an oracle"
            ),
            "level": getattr(mod, "LEVEL", "exploration"),
            "level_note": note,
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": missing,
    "notes": "All checks run the Python sources of the working tree of /repo directly; "
    "no hooks are needed in /repo.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(manifest, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks;", [m["property"] for m in missing])
