"""C14: EwaCovariance and DiagonalCovariance follow their documented recursions.

Reference-model conformance: the real estimator and the definition, computed independently (mc/ref.py),
step through every word of operation trees (from nothing and across the end of the burn-in), every
single deviation at every position, and long streams over a grid of decay rates, widths, scales.
"""
from __future__ import annotations

from mc import conform

PROPERTY = "C14"
LEVEL = "model_checking"
ASSUMPTIONS = ["paths on which the definition inverts a matrix of condition > 1e9 are skipped (counted)"]

CFGS = [
    (['EwaCovariance', {}], {}),
    (['DiagonalCovariance', {}], {}),
]


def cases(tier):
    out = []
    for i, (cfg, kw) in enumerate(CFGS):
        out += conform.cases_for(cfg, tier, **kw)
    out += conform.param_cases("EwaCovariance", tier, r=conform.FINE_GRID)
    out += conform.param_cases("DiagonalCovariance", tier, r=conform.FINE_GRID)
    return out


run = conform.run
