#!/opt/venv/bin/python
"""Run the property's check (or the given ones) against planted bugs: catch.py [ID[:CHECK,CHECK] ...]"""
import json
import os
import subprocess
import sys

IDS = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
for item in IDS:
    bid, _, checks = item.partition(":")
    d = f"/verif/seeded/{bid}"
    meta = json.load(open(d + "/meta.json"))
    wt = f"/tmp/catch-{bid}"
    subprocess.run(["rm", "-rf", wt])
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    try:
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=wt, check=True)
        for c in checks.split(",") if checks else [meta["property"]]:
            r = subprocess.run(["/opt/venv/bin/python", "/verif/run.py", c], env={**os.environ, "VERIF_REPO": wt},
                               capture_output=True, text=True)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            print(f"{bid:34s} {c} {'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode}", flush=True)
    finally:
        subprocess.run(["rm", "-rf", wt])
