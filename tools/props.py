"""Single source of the property list; writes properties.jsonl and MANIFEST.json.

    /opt/venv/bin/python tools/props.py
"""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                  why=" ".join(why.split()), files=files, mechanism=mechanism, technique=technique,
                  note=" ".join(note.split()), observe=observe, state=list(state)))


BASE = "precise/base.py"
EST = ["precise/empirical.py", "precise/ewa.py", "precise/diagonal.py", "precise/ledoitwolf.py", "precise/oas.py",
       "precise/shrunk.py", "precise/huber.py", "precise/adaptive.py", "precise/tyler.py", "precise/partialmoments.py",
       "precise/geodesic.py", "precise/factor.py", "precise/dcc.py", "precise/block_covariance.py",
       "precise/schurcov.py", "precise/schur_ledoit_wolf.py", "precise/schur_conditional.py", "precise/conditional.py"]
NOTE = """Exhaustive within the stated bounds, executing the real code; trusts numpy and the small reference
code in mc/. Beyond the bounds (longer streams, other values) nothing is claimed."""

exec((Path(__file__).parent / "props_list.py").read_text())


def main():
    with open(ROOT / "properties.jsonl", "w") as f:
        for q in P:
            f.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]},
                "why_tests_cant": q["why"],
                "anchors": {"files": q["files"],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in q["state"]],
                            "mechanism": [{"name": a, "where": b} for a, b in q["mechanism"]],
                            "observe_at": q["observe"], "hook_needed": None}}) + "\n")
    checks = []
    import re
    for q in P:
        src = next((ROOT / "mc/checks").glob(q["id"].lower() + "_*.py")).read_text()
        level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
        checks.append({"property": q["id"], "quick_cmd": f"{PY} run.py {q['id']} --tier quick",
                       "thorough_cmd": f"{PY} run.py {q['id']} --tier thorough",
                       "evidence_file": f"evidence/{q['id']}.json",
                       "technique": q["technique"], "level": level, "level_note": q["note"]})
    man = {"version": 1, "setup_cmd": f"{PY} -c \"import numpy, pandas, scipy\"", "checks": checks,
           "not_applicable": [],
           "notes": "No hooks in /repo: every check drives the unmodified working tree through its public API. "
                    "Known findings and repairs: known_findings.txt."}
    (ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")


main()
