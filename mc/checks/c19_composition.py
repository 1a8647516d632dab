"""C19: DCC and ConditionalCovariance compose volatilities and correlation as H = D R D.

Reference-model conformance: the real estimator and the definition, computed independently (mc/ref.py),
step through every word of operation trees (from nothing and across the end of the burn-in), every
single deviation at every position, and long streams over a grid of decay rates, widths, scales.
"""
from __future__ import annotations

from mc import conform

PROPERTY = "C19"
LEVEL = "model_checking"
ASSUMPTIONS = ["paths on which the definition inverts a matrix of condition > 1e9 are skipped (counted)"]

LIGHT = {'widths': (1, 3), 'trees': False, 'devs': ('big', 'neg', 'zero', 'tiny')}
VOLS = ["DiagonalCovariance", "AdaptiveEwaCovariance", "LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance",
        "HuberCovariance", "PartialMomentsCovariance", "FactorCovariance", "BlockCovariance", "SchurCovariance",
        "DCCCovariance", "EmpiricalCovariance"]

CFGS = [
    (['DCCCovariance', {}], {}),
    (['DCCCovariance', {'vol_r': 0.25}], {'widths': (1, 3, 6)}),
    (['DCCCovariance', {'vol_r': 0.02}], {'widths': (1, 2, 5), 'trees': False}),
    (['ConditionalCovariance', {}], {'widths': (1, 3, 6)}),
    (['ConditionalCovariance', {'vol': ['EwaCovariance', {'r': 0.3}], 'corr': ['LedoitWolfCovariance', {'r': 0.3}]}], {'widths': (1, 3, 6)}),
    (['ConditionalCovariance', {'vol': ['skater'], 'corr': ['EwaCovariance', {'r': 0.25}]}], {'widths': (1, 3, 6)}),
    (['ConditionalCovariance', {'vol': ['DiagonalCovariance', {'r': 0.3}], 'corr': ['OASCovariance', {'r': 0.2}]}], {'widths': (1, 3, 6)}),
    (['ConditionalCovariance', {'vol': ['EmpiricalCovariance', {}], 'corr': ['FactorCovariance', {'k': 1, 'r': 0.3}]}], {'widths': (1, 2, 5), 'trees': False}),
]

CFGS += [(["ConditionalCovariance", {"vol": [v, {}], "corr": ["EwaCovariance", {"r": 0.3}]}], LIGHT) for v in VOLS]
CFGS += [(["ConditionalCovariance", {"vol": ["EwaCovariance", {"r": 0.3}], "corr": [v, {}]}], LIGHT) for v in VOLS]


def cases(tier):
    out = []
    for i, (cfg, kw) in enumerate(CFGS):
        out += conform.cases_for(cfg, tier, **kw)
    out += conform.param_cases("DCCCovariance", tier, r=conform.FINE_GRID)
    out += conform.param_cases("DCCCovariance", tier, vol_r=conform.FINE_GRID + (0.3, 0.08, 1.0, None))
    return out


run = conform.run
