"""Harness core: enumerate cases, explore each exhaustively in worker processes, report.

A check module (mc/checks/cNN_*.py) provides

    PROPERTY   the id
    LEVEL      "model_checking" or "fault_enumeration"
    cases(tier)      -> list of JSON-able dicts; together they *are* the bounded space
    run(case, rec)   -> explores one case completely, reporting to the Rec

Nothing here samples: the list of cases and what each explores is a function of the tier only.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time
import traceback
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
CASE_LIMIT_S = {"quick": 500, "thorough": 3000}  # a case takes seconds; beyond this the code under test is stuck
MAX_PER_CASE = 4


class Stuck(BaseException):
    """Raised by the per-case alarm: the code under test did not terminate."""


class Abort(Exception):
    """Enough violations in this case."""


class Rec:
    """What one case covered, and what it found."""

    def __init__(self, case):
        self.case = case
        self.n = {}
        self.violations = []
        self.samples = []

    def add(self, key, k=1):
        self.n[key] = self.n.get(key, 0) + k

    def state(self, k=1):
        self.add("states", k)

    def trans(self, k=1):
        self.add("transitions", k)

    def trace(self, k=1):
        self.add("traces", k)

    def skip(self, why, k=1):
        self.add("skipped: " + why, k)

    def sample(self, s):
        if len(self.samples) < 1:
            self.samples.append(s)

    def violate(self, msg, key=None, **detail):
        """``key`` identifies the specific input/history, for matching a known finding."""
        self.violations.append({"msg": msg, "key": key, "detail": jsonable(detail)})
        if key is None and len(self.violations) >= MAX_PER_CASE:
            raise Abort()

    def check(self, ok, msg, key=None, **detail):
        if not ok:
            self.violate(msg, key, **detail)
        return ok


def jsonable(o):
    import numpy as np

    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return jsonable(o.item())
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


def load_precise():
    """Import the code under test from /repo's working tree, never from stale bytecode."""
    import numpy  # noqa: F401  (with its normal bytecode cache)
    import pandas  # noqa: F401

    sys.pycache_prefix = "/nonexistent-pycache"  # forces compilation from source below
    sys.path.insert(0, str(REPO))
    import precise

    here = Path(precise.__file__).resolve()
    if REPO.resolve() not in here.parents:
        raise SystemExit(f"precise was imported from {here}, not from {REPO}")
    return precise


def load_check(pid):
    for f in sorted((VERIF / "mc" / "checks").glob("*.py")):
        if f.name.startswith(pid.lower() + "_"):
            return importlib.import_module(f"mc.checks.{f.stem}")
    raise SystemExit(f"no check for {pid}")


def _alarm(signum, frame):
    raise Stuck()


_MOD = None


def _work(ic):
    i, case = ic
    rec = Rec(case)
    t0 = time.time()
    err = None
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    signal.signal(signal.SIGALRM, _alarm)
    limit = CASE_LIMIT_S.get(os.environ.get("VERIF_TIER"), 500)
    signal.alarm(limit)
    try:
        _MOD.run(case, rec)
    except Abort:
        pass
    except Stuck:
        rec.violations.append({"msg": f"did not terminate within {limit} s", "key": None,
                               "detail": {"where": traceback.format_exc()[-2500:]}})
    except Exception as exc:  # the code under test raised where the property says it must not
        text = traceback.format_exc()[-3000:]
        if isinstance(exc, (ImportError, MemoryError)):
            err = text
        else:
            rec.violations.append({"msg": f"unexpected {type(exc).__name__}: {exc}", "key": None,
                                   "detail": {"where": text}})
    finally:
        signal.alarm(0)
    return i, rec.n, rec.violations, rec.samples, time.time() - t0, err


def pristine(fn):
    """fn() evaluated in a forked copy of this process, so that it leaves nothing behind here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = (True, fn())
            except BaseException as exc:  # noqa: BLE001
                out = (False, repr(exc))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    ok, out = pickle.loads(data)
    if not ok:
        raise RuntimeError(out)
    return out


def known_findings(pid):
    """(key -> text) of the findings listed for this property."""
    out = {}
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith(f"finding: property={pid} key="):
                key, _, text = line.split("key=", 1)[1].partition(" ")
                out[key] = text
    return out


def main(argv):
    global _MOD
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
        elif argv[i] == "--replay":
            replay = argv[i + 1]
        elif argv[i] == "--case":
            only = int(argv[i + 1])
        i += 2
    os.environ["VERIF_TIER"] = tier
    t0 = time.time()
    sys.path.insert(0, str(VERIF))
    load_precise()
    warnings.simplefilter("ignore")
    _MOD = load_check(pid)
    if replay:
        d = json.loads(Path(replay).read_text())
        cases = [d["case"]]
    else:
        cases = _MOD.cases(tier)
        if only is not None:
            cases = [cases[only]]
    # interleave, so that the expensive cases (usually neighbours) spread over the workers
    order = sorted(range(len(cases)), key=lambda j: -cases[j].get("cost", 1))
    known = known_findings(pid)
    totals, samples, found, errors, slow = {}, [], [], [], []
    seen_known = set()
    if len(cases) == 1:
        results = map(_work, [(0, cases[0])])
        pool = None
    else:
        pool = mp.get_context("fork").Pool(int(os.environ.get("VERIF_JOBS", "8")), maxtasksperchild=1)
        results = pool.imap_unordered(_work, [(j, cases[j]) for j in order], chunksize=1)
    for j, n, viols, smp, dt, err in results:
        for k, v in n.items():
            totals[k] = totals.get(k, 0) + v
        if smp and len(samples) < 6:
            samples.append({"case": cases[j], "what": jsonable(smp[0])})
        slow.append((dt, j))
        if err:
            errors.append((j, err))
        for v in viols:
            if v["key"] is not None and v["key"] in known:
                seen_known.add(v["key"])
            else:
                found.append((j, v))
        if found and (os.environ.get("VERIF_FIRST") or found[-1][1]["msg"].startswith("did not terminate")):
            break  # the others would be stuck, too
    if pool:
        pool.terminate()
        pool.join()
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={pid} {known[k]} [{k}]")
    (VERIF / "replays").mkdir(exist_ok=True)
    found.sort(key=lambda jv: jv[0])
    shown = set()
    for j, v in found:
        if j in shown:
            continue
        shown.add(j)
        if len(shown) > 5:
            break
        blob = {"property": pid, "tier": tier, "case": cases[j], "violation": v,
                "replay": f"/opt/venv/bin/python /verif/run.py {pid} --replay <this file>"}
        h = hashlib.sha1(json.dumps(blob["case"], sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = VERIF / "replays" / f"{pid}-{h}.json"
        path.write_text(json.dumps(jsonable(blob), indent=1))
        print(f"VIOLATION property={pid} replay={path}")
        print(f"   {v['msg']}   case={json.dumps(cases[j], default=str)[:300]}")
        print(f"   {json.dumps(v['detail'], default=str)[:600]}")
    for j, err in errors[:3]:
        print(f"HARNESS-ERROR case={json.dumps(cases[j], default=str)[:300]}\n{err}")
    wall = time.time() - t0
    if not replay and only is None:
        write_evidence(pid, tier, _MOD, cases, totals, samples, len(found), wall, len(seen_known))
    slow.sort(reverse=True)
    rest = {k: v for k, v in totals.items()}
    print(f"{pid} {tier}: {len(cases)} cases, {rest}, violations={len(found)}, "
          f"wall={wall:.1f}s, slowest={[(round(a, 1), b) for a, b in slow[:3]]}")
    if found:
        return 1
    if errors:
        return 3
    return 0


def write_evidence(pid, tier, mod, cases, totals, samples, nviol, wall, nknown):
    cov = {}
    extra = {k: v for k, v in totals.items() if k not in ("states", "transitions", "traces")}
    if mod.LEVEL == "fault_enumeration":
        cov["evaluations"] = totals.get("evaluations", 0)
        cov["distinct_nontrivial"] = totals.get("distinct_nontrivial", 0)
        cov["rule"] = mod.RULE
        extra.pop("evaluations", None)
        extra.pop("distinct_nontrivial", None)
    else:
        cov["states"] = totals.get("states", 0)
        cov["transitions"] = totals.get("transitions", 0)
        cov["traces_validated_against_impl"] = totals.get("traces", 0)
        cov["rule"] = getattr(mod, "RULE", (mod.__doc__ or "").strip())
    cov["samples"] = samples or [{"case": cases[0]}]
    cov["cases"] = len(cases)
    cov["exhaustive"] = nviol == 0
    cov["counters"] = extra
    cov["known_findings_seen"] = nknown
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
          "level": mod.LEVEL, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2),
          "violations": nviol}
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    (d / f"{pid}.json").write_text(json.dumps(jsonable(ev), indent=1) + "\n")
