"""Writes MANIFEST.json from the registered checks."""
import json
import os
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
sys.path.insert(0, str(ROOT / "harness"))
from vh import checks  # noqa: E402

props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines()]
out = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    c = checks.CHECKS.get(p["id"])
    if c is None:
        out["not_applicable"].append({"property": p["id"], "reason": checks.NOT_APPLICABLE.get(
            p["id"], "no check built yet")})
        continue
    cmd = f"bash check.sh {p['id']}"
    out["checks"].append({
        "property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
        "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
out["notes"] = ("All checks bind the TLA+ specification in spec/ to the code in /repo/src without "
                "hooks in the repository: the harness wraps the callables the optimizer is assembled "
                "from. Known findings are listed in findings/known_findings.txt.")
(ROOT / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
print(len(out["checks"]), "checks;", len(out["not_applicable"]), "not applicable")
