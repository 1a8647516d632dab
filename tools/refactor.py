#!/opt/venv/bin/python
"""Run checks against behaviour-preserving edits: refactor.py [ID ...]; prints any alarm."""
import os
import runpy
import subprocess
import sys

R = runpy.run_path("/verif/tools/bugs/refactors.py")["R"]
for r in R:
    if sys.argv[1:] and r["id"] not in sys.argv[1:]:
        continue
    wt = f"/tmp/refactor-{r['id']}"
    subprocess.run(["rm", "-rf", wt])
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    try:
        for path, old, new in r["edits"]:
            s = open(f"{wt}/{path}").read()
            assert s.count(old) == 1, (r["id"], path, s.count(old), old[:60])
            open(f"{wt}/{path}", "w").write(s.replace(old, new))
        for c in r["checks"]:
            p = subprocess.run(["/opt/venv/bin/python", "/verif/run.py", c], env={**os.environ, "VERIF_REPO": wt},
                               capture_output=True, text=True)
            ok = p.returncode == 0
            print(f"{r['id']:20s} {c} {'quiet' if ok else 'ALARM rc=%d' % p.returncode}", flush=True)
            if not ok:
                print("   ", "\n    ".join(x[:500] for x in p.stdout.splitlines() if "VIOLATION" in x or x.startswith("   "))[:2500])
    finally:
        subprocess.run(["rm", "-rf", wt])
