"""C27: parameters mean what the constructor says, wherever they come from.

Every estimator and every combination of a parameter grid is built by every route (constructor by
keyword and position, by name, set_params, get_params round trip, repr evaluated, sklearn's clone,
copy, pickle, a keyed adapter, set_state into one) and the routes must give the same estimates over
streams crossing the burn-in. Also the complete registry surface.
"""
from __future__ import annotations

import copy
import inspect
import itertools
import pickle

import numpy as np

from mc import space as S

PROPERTY = "C27"
LEVEL = "model_checking"

DEFAULTS = {
    "EmpiricalCovariance": {"diff": False}, "DiagonalCovariance": {"r": 0.05, "diff": False},
    "BlockCovariance": {"r": 0.05, "n_blocks": 4, "diff": False}, "EwaCovariance": {"r": 0.05, "diff": False},
    "AdaptiveEwaCovariance": {"r": 0.05, "max_r": 0.5, "diff": False}, "LedoitWolfCovariance": {"r": 0.05, "diff": False},
    "OASCovariance": {"r": 0.05, "diff": False}, "ShrunkCovariance": {"r": 0.05, "delta": 0.1, "target": "constant_correlation", "diff": False},
    "SchurCovariance": {"r": 0.05, "gamma": 0.5, "n_blocks": 4, "interpolation": "linear", "diff": False},
    "SchurConditionalCovariance": {"r": 0.05, "n_blocks": 4, "diff": False},
    "SchurLedoitWolfCovariance": {"r": 0.05, "n_blocks": 4, "diff": False},
    "PartialMomentsCovariance": {"r": 0.05, "diff": False}, "HuberCovariance": {"r": 0.05, "c": 2.5, "diff": False},
    "TylerCovariance": {"r": 0.05, "diff": False}, "GeodesicEwaCovariance": {"r": 0.05, "diff": False},
    "DCCCovariance": {"r": 0.05, "vol_r": None, "diff": False}, "FactorCovariance": {"k": 2, "r": 0.05, "diff": False},
}
GRID = {"r": [0.05, 0.3], "diff": [False, True], "n_blocks": [1, 3], "max_r": [0.5, 0.31], "delta": [0.1, 0.7],
        "target": ["identity", "constant_correlation"], "gamma": [0.0, 0.8], "interpolation": ["linear", "geodesic"], "c": [2.5, 0.7],
        "vol_r": [None, 0.05, 0.4], "k": [1, 3]}


def cases(tier):
    out = [{"kind": "registry"}, {"kind": "conditional"}]
    for n in S.ALL17:
        out.append({"kind": "routes", "name": n, "n": 40 if tier == "thorough" else 26, "cost": 3})
        out.append({"kind": "surface", "name": n})
        out.append({"kind": "subclass", "name": n})
    for c in S.odd_configs() + S.odd_configs(r=1e-7) + S.odd_configs(r=2 / 3):
        out.append({"kind": "exact", "config": c})
    return out


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)


def combos(name, real):
    keys = list(real)
    for vals in itertools.product(*[GRID[k] if k in GRID else [real[k]] for k in keys]):
        yield dict(zip(keys, vals))


def run_routes(case, rec):
    import precise

    name = case["name"]
    cls = getattr(precise, name)
    real = cls().get_params()
    X = S.stream(case["n"], 4, seed=91)
    for pr in combos(name, real):
        sig = [p for p in inspect.signature(cls).parameters]
        ref = cls(**pr).partial_fit(X)
        want = S.observe(ref)
        other = {k: (next(v for v in GRID[k] if v != pr[k]) if k in GRID else pr[k]) for k in pr}
        routes = {
            "position": lambda: cls(*[pr[k] for k in sig]),
            "name": lambda: precise.estimator_from_name(name)(**pr),
            "set_params": lambda: cls().set_params(**pr),
            "set_params over others": lambda: cls(**other).set_params(**pr),
            "set_params one by one": lambda: one_by_one(cls(**other), pr),
            "get_params": lambda: cls(**cls(**pr).get_params()),
            "get_params(deep)": lambda: cls(**cls(**pr).get_params(deep=False)),
            "repr": lambda: eval(repr(cls(**pr)), {name: cls}),
            "copy": lambda: copy.copy(cls(**pr)),
            "deepcopy": lambda: copy.deepcopy(cls(**pr)),
            "pickle": lambda: pickle.loads(pickle.dumps(cls(**pr))),
            "reset": lambda: cls(**pr).set_state(None),
        }
        try:
            from sklearn.base import clone
        except ImportError:
            pass
        else:
            routes["sklearn clone"] = lambda: clone(cls(**pr))
            routes["sklearn clone of a fitted one"] = lambda: clone(cls(**pr).fit(X))
        for how, make in routes.items():
            e = make()
            rec.trans()
            rec.check(type(e) is cls and e.get_params() == pr and e.n_samples_ == 0, "parameters lost", how=how, params=pr, got=repr(e))
            bad = S.same_obs(S.observe(e.partial_fit(X)), want, 1e-9)
            rec.check(bad is None, "not the estimator with these parameters", how=how, params=pr, diff=bad, name=name)
            rec.state()
        # through a keyed adapter, from an instance or from the class, both universes
        names = list("abcd")
        for how, k in (("keyed instance", lambda: precise.keyed(cls(**pr))), ("keyed class", lambda: precise.keyed(cls, **pr)),
                       ("dynamic instance", lambda: precise.keyed(cls(**pr), dynamic=True)),
                       ("dynamic class", lambda: precise.keyed(cls, dynamic=True, **pr)),
                       ("FixedUniverse", lambda: precise.FixedUniverse(cls(**pr))),
                       ("FixedUniverse class", lambda: precise.FixedUniverse(cls, **pr))):
            e = k().learn_many([dict(zip(names, map(float, x))) for x in X])
            got = e.cov_array(names)[0]
            rec.trans()
            C = want["cov"]
            rec.check(np.allclose(got, C, rtol=0, atol=1e-6 * np.abs(C).max()), "not the estimator with these parameters", how=how,
                      params=pr, got=got, want=C, name=name)
        # fit data does not leak into parameters
        rec.check(ref.get_params() == pr and ref.fit(X[:5]).get_params() == pr, "fitting changed a parameter", params=pr)
        rec.trace()
    rec.sample({"name": name, "combinations": sum(1 for _ in combos(name, real)), "routes": len(routes) + 6})


def one_by_one(e, pr):
    for k, v in pr.items():
        e.set_params(**{k: v})
    return e


def run_surface(case, rec):
    """Signature, defaults, and attributes of one estimator."""
    import precise

    name = case["name"]
    cls = getattr(precise, name)
    e = cls()
    rec.check(e.get_params() == DEFAULTS[name], "default parameters", got=e.get_params(), want=DEFAULTS[name])
    rec.check(list(inspect.signature(cls).parameters) == list(e.get_params()), "get_params misses a parameter")
    rec.check(e.set_params() is e and e.set_params(**e.get_params()) is e, "set_params does not return self")
    rec.check(repr(e) == f"{name}({', '.join(f'{k}={v!r}' for k, v in e.get_params().items())})", "repr", got=repr(e))
    rec.check(issubclass(cls, precise.BaseOnlineCovariance) and e.n_samples_ == 0 and e.n_features_in_ is None, "unfitted surface")
    X = S.stream(9, 3, seed=92)
    for how in ("partial_fit", "fit"):
        f = getattr(cls(), how)
        r = f(X)
        rec.check(r is f.__self__, f"{how} does not return self")
        rec.check(getattr(cls(), how)(X, None).n_samples_ == 9 and getattr(cls(), how)(X, y=X).n_samples_ == 9, f"{how} takes y")
        rec.check(r.n_features_in_ == 3 and isinstance(r.n_samples_, int), "n_features_in_", got=r.n_features_in_)
        rec.trans(3)
    rec.check(np.array_equal(r.get_precision(), r.precision_), "get_precision")
    # parameters given mid-stream values do not share mutable defaults
    a, b = cls(), cls()
    a.set_params(**{k: v for k, v in a.get_params().items()})
    rec.check(b.get_params() == DEFAULTS[name], "instances share parameters")
    rec.state()
    rec.trace()


def same_params(got, want):
    return list(got) == list(want) and all(type(got[k]) is type(want[k]) and got[k] == want[k] for k in want)


def run_exact(case, rec):
    """Parameters that no rounding leaves alone come back bit for bit by every route."""
    import precise

    name, pr = case["config"]
    cls = getattr(precise, name)
    X = S.stream(9, 4, seed=96)
    want_params = {**cls().get_params(), **pr}
    want = S.observe(cls(**pr).partial_fit(X))
    fitted = cls(**pr).partial_fit(X[:4])
    for how, make in (("repr", lambda e: eval(repr(e), {name: cls})), ("str", lambda e: eval(str(e), {name: cls})),
                      ("get_params", lambda e: cls(**e.get_params())), ("set_params", lambda e: cls().set_params(**e.get_params())),
                      ("copy", copy.copy), ("deepcopy", copy.deepcopy), ("pickle", lambda e: pickle.loads(pickle.dumps(e))),
                      ("keyed", lambda e: precise.keyed(e)), ("dynamic", lambda e: precise.keyed(e, dynamic=True))):
        for what, e in (("new", cls(**pr)), ("fitted", fitted)):
            m = make(e)
            rec.trans()
            rec.state()
            if how in ("keyed", "dynamic"):
                m.learn_many([dict(zip("abcd", map(float, x))) for x in X])
                got = m.cov_array(list("abcd"))[0]
                rec.check(np.allclose(got, want["cov"], rtol=0, atol=1e-9 * np.abs(want["cov"]).max()),
                          "not the estimator with these parameters", how=how, of=what, params=pr, got=got, want=want["cov"], name=name)
                continue
            rec.check(same_params(m.get_params(), want_params), "parameters changed on the way", how=how, of=what, name=name,
                      got=repr(m.get_params()), want=repr(want_params))
            bad = S.same_obs(S.observe(m.fit(X)), want, 0.0)
            rec.check(bad is None, "not the estimator with these parameters", how=how, of=what, params=pr, diff=bad, name=name)
    rec.trace()


def run_subclass(case, rec):
    """An estimator of the user's own, derived from a registered one and with a parameter more, has
    all of that one's parameters and its own, by every route and whichever class was used first."""
    import precise

    name = case["name"]
    parent = getattr(precise, name)
    parent().get_params()
    repr(parent())
    sig = parent().get_params()
    args = ", ".join(f"{k}={v!r}" for k, v in sig.items())
    X = S.stream(22, 4, seed=97)
    for order in ("before", "after"):
        mine = f"Mine{order}{name}"
        scope = {"parent": parent, "np": np}
        exec(f"class {mine}(parent):\n"
             f"    def __init__(self, {args}, gain=1.0):\n"
             f"        super().__init__({', '.join(f'{k}={k}' for k in sig)})\n"
             f"        self.gain = gain\n"
             f"    def _state_to_cov(self, state):\n"
             f"        return self.gain * super()._state_to_cov(state)\n", scope)
        sub = scope[mine]
        sub.__module__ = __name__
        globals()[mine] = sub  # where pickle looks
        if order == "before":
            sub().get_params()
        parent().get_params()
        pr = dict(sig, gain=2.5)
        rec.check(same_params(sub(gain=2.5).get_params(), pr) and same_params(parent().get_params(), sig), "parameters of a derived estimator",
                  name=name, order=order, got=sub(gain=2.5).get_params(), parent=parent().get_params())
        want = parent().partial_fit(X).covariance_
        from sklearn.base import clone
        for how, make in (("repr", lambda e: eval(repr(e), {mine: sub})), ("get_params", lambda e: sub(**e.get_params())),
                          ("set_params", lambda e: sub().set_params(**e.get_params())), ("copy", copy.copy), ("deepcopy", copy.deepcopy),
                          ("pickle", lambda e: pickle.loads(pickle.dumps(e))), ("clone", clone)):
            m = make(sub(gain=2.5))
            rec.trans()
            rec.state()
            rec.check(type(m) is sub and same_params(m.get_params(), pr), "a derived estimator loses a parameter", how=how, name=name, order=order,
                      got=repr(m))
            got = m.partial_fit(X).covariance_
            rec.check(np.allclose(got, 2.5 * want, rtol=1e-9, atol=0), "a derived estimator computes something else", how=how, name=name,
                      order=order, got=got, want=2.5 * want)
        k = precise.keyed(sub(gain=2.5))
        k.learn_many([dict(zip("abcd", map(float, x))) for x in X])
        rec.check(np.allclose(k.cov_array(list("abcd"))[0], 2.5 * want, rtol=1e-9), "a derived estimator, keyed", name=name, order=order)
    rec.trace()


def run_registry(case, rec):
    import importlib
    import precise

    every = precise.all_estimators()
    names = precise.estimator_names()
    rec.check(names == [c.__name__ for c in every] and sorted(names) == sorted(S.ALL17) and len(set(names)) == len(names),
              "the registered estimators", got=names)
    for n, c in zip(names, every):
        rec.trans()
        rec.state()
        rec.check(precise.estimator_from_name(n) is c is getattr(precise, n), "estimator_from_name", name=n)
    every.clear()
    names.clear()
    rec.check(len(precise.all_estimators()) == 17 == len(precise.estimator_names()), "editing the returned list edits the registry")
    for bad in ["", "Ewa", "ewacovariance", "EwaCovariance ", "BaseOnlineCovariance", "ConditionalCovariance"] + [n[:-1] for n in S.ALL17]:
        rec.trans()
        try:
            r = precise.estimator_from_name(bad)
        except KeyError as exc:
            rec.check(bad in str(exc) or not bad, "the error does not name the estimator", got=str(exc))
        else:
            rec.violate("an unknown name is accepted", name=bad, got=repr(r))
    for n in precise.__all__:
        rec.check(hasattr(precise, n), "__all__ names a missing attribute", name=n)
    for n in S.ALL17 + ["ConditionalCovariance", "from_skater", "keyed", "FixedUniverse", "DynamicUniverse", "suggest", "covariance_features",
                        "all_estimators", "estimator_names", "estimator_from_name", "all_assessors", "assessor_from_name",
                        "BaseOnlineCovariance"]:
        rec.check(n in precise.__all__ and hasattr(precise, n), "public name", name=n)
    for m in ("precise.skaters", "precise.skaters.covariance.ewapm"):
        try:
            importlib.import_module(m)
        except ImportError as exc:
            rec.check("1.0" in str(exc) and "MIGRATING" in str(exc), "the shim does not explain", got=str(exc))
        else:
            rec.violate("the removed skater API imports", module=m)
    rec.trace()


def run_conditional(case, rec):
    """ConditionalCovariance: parameters, defaults and templates."""
    import precise

    C = precise.ConditionalCovariance
    X = S.stream(25, 3, seed=93)
    grid = [None, precise.EwaCovariance(r=0.2), precise.DiagonalCovariance(r=0.3), precise.LedoitWolfCovariance(), precise.EmpiricalCovariance()]
    dflt = lambda e: e if e is not None else precise.EwaCovariance()
    from precise.base import NotFittedError
    for v, c in itertools.product(grid, grid):
        e = C(vol=copy.deepcopy(v), corr=copy.deepcopy(c))
        want = S.observe(C(vol=dflt(copy.deepcopy(v)), corr=dflt(copy.deepcopy(c))).partial_fit(X))
        p = e.get_params()
        rec.check(set(p) == {"vol", "corr"} and type(p["vol"]) is type(dflt(v)) and p["vol"].get_params() == dflt(v).get_params()
                  and type(p["corr"]) is type(dflt(c)) and p["corr"].get_params() == dflt(c).get_params(), "get_params", got=repr(p))
        rec.check(type(e.vol).__name__ in repr(e) and type(e.corr).__name__ in repr(e), "repr", got=repr(e))
        for how, make in (("position", lambda: C(copy.deepcopy(v), copy.deepcopy(c))), ("get_params", lambda: C(**e.get_params())),
                          ("set_params", lambda: C().set_params(**e.get_params())), ("deepcopy", lambda: copy.deepcopy(e)),
                          ("pickle", lambda: pickle.loads(pickle.dumps(e))), ("repr", lambda: eval(repr(e), dict(vars(precise)))),
                          ("used template", lambda: C(vol=v and copy.deepcopy(v).partial_fit(X[:, :1]), corr=c and copy.deepcopy(c).partial_fit(X)))):
            rec.trans()
            rec.state()
            m = make()
            bad = S.same_obs(S.observe(m.partial_fit(X)), want, 1e-9)
            rec.check(bad is None, "ConditionalCovariance built another way differs", how=how, vol=repr(v), corr=repr(c), diff=bad)
        for t in (e.vol, e.corr):
            try:
                t.covariance_
            except NotFittedError:
                pass
            else:
                rec.violate("the template was trained", vol=repr(v), corr=repr(c))
        rec.trace()
    for bad in (3, "EwaCovariance", [1]):
        try:
            C(vol=bad).partial_fit(X)
        except TypeError:
            pass
        else:
            rec.violate("a volatility model that is neither an estimator nor a factory is accepted", vol=repr(bad))
    for m in ("get_state", "set_state"):
        try:
            getattr(C().partial_fit(X), m)(*([None] if m == "set_state" else []))
        except NotImplementedError:
            pass
        else:
            rec.violate(f"{m} does not point to pickle")
