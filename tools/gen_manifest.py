"""Writes MANIFEST.json from the checks present in checks/ and the notes in tools/levels.py."""
import json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
from levels import NOTES, NOT_APPLICABLE

props = [json.loads(l)["id"] for l in open(ROOT / "properties.jsonl")]
checks, na = [], []
for p in props:
    if (ROOT / "checks" / f"{p.lower()}.py").exists() and p in NOTES:
        technique, note = NOTES[p]
        checks.append({
            "property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"env VERIF_TIER=thorough ./run.sh {p}", "evidence_file": f"evidence/{p}.json",
            "technique": technique, "level": "model_checking", "level_note": note,
        })
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "no check yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in specs/, checked with TLC and bound to the code by the drivers in checks/. VERIF_TIER=thorough deepens every check."},
          open(ROOT / "MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
