"""Writes properties.jsonl and MANIFEST.json from props.py (the one place where
the properties are stated)."""
import glob, json, os

from props import NOT_APPLICABLE, PROPS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, lines = [], []
for p in PROPS:
    p = dict(p)
    technique, note = p.pop("technique"), p.pop("level_note")
    assert len(p["title"]) <= 80, p["title"]
    lines.append(json.dumps(p))
    if not glob.glob(f"{V}/harness/check_{p['id']}_*.py"):
        print("no check yet:", p["id"])
        if not any(n["property"] == p["id"] for n in NOT_APPLICABLE):
            NOT_APPLICABLE.append({"property": p["id"], "reason": "check not written yet"})
        continue
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": f"VERIF_TIER=quick bash run.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p['id']}",
            "technique": technique,
            "level": "exploration",
            "level_note": note,
        }
    )
open(f"{V}/properties.jsonl", "w").write("\n".join(lines) + "\n")
json.dump(
    {
        "version": 1,
        "setup_cmd": "bash harness/setup.sh",
        "hooks": {"guard": "none", "enable": "no hooks in /repo: the harness replaces the middleware objects handed to the code", "source_commits": []},
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": "bash run.sh <ID> --replay <file> re-executes a recorded violation.",
    },
    open(f"{V}/MANIFEST.json", "w"),
    indent=1,
)
print(len(checks), "checks,", len(lines), "properties")
