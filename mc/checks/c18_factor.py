"""C18: FactorCovariance is the CCIPCA low-rank-plus-diagonal recursion.

Reference-model conformance: the real estimator and the definition, computed independently (mc/ref.py),
step through every word of operation trees (from nothing and across the end of the burn-in), every
single deviation at every position, and long streams over a grid of decay rates, widths, scales.
"""
from __future__ import annotations

from mc import conform

PROPERTY = "C18"
LEVEL = "model_checking"
ASSUMPTIONS = ["paths on which the definition inverts a matrix of condition > 1e9 are skipped (counted)"]

CFGS = [
    (['FactorCovariance', {}], {}),
    (['FactorCovariance', {'k': 1}], {'widths': (1, 3, 6)}),
    (['FactorCovariance', {'k': 3}], {'widths': (1, 3, 6)}),
    (['FactorCovariance', {'k': 8}], {'widths': (1, 3, 6)}),
]


def cases(tier):
    out = []
    for i, (cfg, kw) in enumerate(CFGS):
        out += conform.cases_for(cfg, tier, **kw)
    out += conform.param_cases("FactorCovariance", tier, r=conform.FINE_GRID, k=(1, 2))
    out += conform.param_cases("FactorCovariance", tier, k=(1, 2, 3, 4, 5, 6, 7, 8, 9, 20))
    return out


run = conform.run
