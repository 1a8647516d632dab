"""C15: LedoitWolf, OAS and Shrunk apply the documented shrinkage to the EWA covariance.

Reference-model conformance: the real estimator and the definition, computed independently (mc/ref.py),
step through every word of operation trees (from nothing and across the end of the burn-in), every
single deviation at every position, and long streams over a grid of decay rates, widths, scales.
"""
from __future__ import annotations

from mc import conform

PROPERTY = "C15"
LEVEL = "model_checking"
ASSUMPTIONS = ["paths on which the definition inverts a matrix of condition > 1e9 are skipped (counted)"]

CFGS = [
    (['LedoitWolfCovariance', {}], {}),
    (['OASCovariance', {}], {}),
    (['ShrunkCovariance', {}], {'widths': (1, 3, 6)}),
    (['ShrunkCovariance', {'delta': 0.6, 'target': 'identity'}], {'widths': (1, 2, 5), 'trees': False}),
    (['ShrunkCovariance', {'delta': 1.0}], {'widths': (1, 2, 5), 'trees': False}),
    (['ShrunkCovariance', {'delta': 0.0}], {'widths': (1, 2, 5), 'trees': False}),
    (['ShrunkCovariance', {'delta': 1.0, 'target': 'identity'}], {'widths': (1, 2, 5), 'trees': False}),
]


def cases(tier):
    out = []
    for i, (cfg, kw) in enumerate(CFGS):
        out += conform.cases_for(cfg, tier, **kw)
    out += conform.param_cases("LedoitWolfCovariance", tier, r=conform.FINE_GRID)
    out += conform.param_cases("OASCovariance", tier, r=conform.FINE_GRID)
    out += conform.param_cases("ShrunkCovariance", tier, r=conform.FINE_GRID)
    out += conform.param_cases("ShrunkCovariance", tier, delta=conform.FINE_GRID + (0.0, 1.0), target=("identity", "constant_correlation"))
    return out


run = conform.run
