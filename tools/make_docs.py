"""Writes properties.jsonl and MANIFEST.json from one table (run by hand; the outputs are committed)."""
import importlib
import json
import os
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(ROOT), "/repo/src"]
S = "src/valor_lite/"
OD, CL, SE, CA, TX = (S + x for x in ("object_detection/", "classification/", "semantic_segmentation/", "cache/", "text_generation/"))

P = []


def prop(pid, check, title, statement, over, text, why, files, mech, observe, technique, note):
    assert len(title) <= 80, (pid, len(title))
    P.append((check, {
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None,
        },
    }, technique, note))


exec((ROOT / "tools" / "properties_table.py").read_text())

lines, checks, na = [], [], []
for check, rec, technique, note in sorted(P, key=lambda x: x[1]["id"]):
    lines.append(json.dumps(rec, ensure_ascii=False))
    if not (ROOT / "checks" / f"{check}.py").exists():
        na.append({"property": rec["id"], "reason": "check not built yet"})
        continue
    mod = importlib.import_module(f"checks.{check}")
    assert mod.PROPERTY == rec["id"], check
    checks.append({
        "property": rec["id"],
        "quick_cmd": f"./check.sh {check} --tier quick",
        "thorough_cmd": f"./check.sh {check} --tier thorough",
        "evidence_file": f"evidence/{rec['id']}.json",
        "technique": technique,
        "level": "exploration",
        "level_note": note + " Not a proof: reach is the workload described in DESIGN.md.",
    })
(ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks run the code of /repo/src as it stands, in process; there are no hooks in /repo. Genuine defects found and repaired are listed in KNOWN_FINDINGS.txt.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1, ensure_ascii=False) + "\n")
print(len(lines), "properties", len(checks), "checks")
