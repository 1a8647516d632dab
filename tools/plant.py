#!/opt/venv/bin/python
"""Plant bugs: plant.py SPECFILE [ID ...]   (keeps the confirmed ones under /verif/seeded/<ID>/)

A spec file defines BUGS: a list of dicts with id, property, edits [(file, old, new), ...], needs, what,
demo (python text; run with cwd and PYTHONPATH at the tree under test) and optionally also (other checks to run).
Everything happens in scratch copies under /tmp/plant, removed afterwards.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

BASE = "a6f6125"
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
       "MKL_NUM_THREADS": "1", "PYTHONHASHSEED": "0"}
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(args, cwd, timeout=1200, **kw):
    return subprocess.run(args, cwd=cwd, env={**ENV, **kw}, capture_output=True, text=True, timeout=timeout)


def original_lines_only(wt, path):
    """Every removed line comes from the original repository."""
    d = sh(["git", "diff", "-U0", "HEAD", "--", path], wt).stdout
    bad = []
    for line in d.splitlines():
        if line.startswith("@@"):
            a = line.split()[1][1:].split(",")
            start, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            if n:
                b = sh(["git", "blame", "-s", "--abbrev=7", f"-L{start},+{n}", "HEAD", "--", path], wt).stdout
                bad += [x for x in b.splitlines() if not x.lstrip("^").startswith(BASE[:6])]
    return bad


def plant(bug, jobs="4"):
    wt = f"/tmp/plant/{bug['id']}"
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    try:
        for path, old, new in bug["edits"]:
            f = os.path.join(wt, path)
            s = open(f).read()
            if s.count(old) != 1:
                return f"EDIT matches {s.count(old)} times in {path}: {old[:50]!r}"
            open(f, "w").write(s.replace(old, new))
        for path in {e[0] for e in bug["edits"]}:
            bad = original_lines_only(wt, path)
            if bad:
                return f"NOT ORIGINAL {bad}"
        patch = sh(["git", "diff", "HEAD"], wt).stdout
        out = f"/verif/seeded/{bug['id']}"
        new = not os.path.exists(out)
        os.makedirs(out, exist_ok=True)
        for name, text in (("patch.diff", patch), ("demo.sh", DEMO_SH), ("demo.py", bug["demo"].lstrip()),
                           ("meta.json", json.dumps({"property": bug["property"], "needs": bug["needs"],
                                                     "what_it_breaks": bug["what"]}, indent=1) + "\n")):
            open(os.path.join(out, name), "w").write(text)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        a = sh(["bash", out + "/demo.sh"], "/repo")
        b = sh(["bash", out + "/demo.sh"], wt)
        msg = []
        if a.returncode != 0:
            msg.append(f"DEMO fails on the unchanged tree: {a.stdout[-300:]} {a.stderr[-300:]}")
        if b.returncode == 0:
            msg.append("DEMO passes with the patch")
        x = os.path.join(wt, "..", bug["id"] + ".xml")
        sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", jobs, "--timeout=300", "-o", "junit_family=xunit2",
            f"--junitxml={x}"], wt, PYTHONPATH=wt)
        r = f"/tmp/plant/{bug['id']}.json"
        sh(["python3", "/opt/vp/results.py", r, "junit:" + x], wt)
        res = json.load(open(r))
        passed = set(res.get("passed", []))
        broken = sorted(STABLE - passed)
        if broken:
            msg.append(f"TESTS broken: {broken[:4]} ({len(broken)})")
        for f in (x, r):
            os.remove(f)
        if msg:
            if new:
                shutil.rmtree(out)
            return " | ".join(msg)
        got = []
        for prop in [bug["property"], *bug.get("also", [])]:
            c = sh([PY, "/verif/run.py", prop], "/verif", VERIF_REPO=wt)
            v = [ln for ln in c.stdout.splitlines() if ln.startswith("VIOLATION")]
            got.append(f"{prop}:{'CAUGHT' if c.returncode == 1 and v else 'MISSED rc=%d' % c.returncode}")
        return "ok " + " ".join(got)
    finally:
        subprocess.run(["rm", "-rf", wt])


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(2) as ex:
        for b, r in zip(bugs, ex.map(plant, bugs)):
            print(f"{b['id']:34s} {b['property']} {r}", flush=True)
