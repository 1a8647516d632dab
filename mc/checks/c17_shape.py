"""C17: Tyler, PartialMoments and Geodesic follow their documented recursions.

Reference-model conformance: the real estimator and the definition, computed independently (mc/ref.py),
step through every word of operation trees (from nothing and across the end of the burn-in), every
single deviation at every position, and long streams over a grid of decay rates, widths, scales.
"""
from __future__ import annotations

from mc import conform

PROPERTY = "C17"
LEVEL = "model_checking"
ASSUMPTIONS = ["paths on which the definition inverts a matrix of condition > 1e9 are skipped (counted)"]

CFGS = [
    (['TylerCovariance', {}], {}),
    (['PartialMomentsCovariance', {}], {}),
    (['GeodesicEwaCovariance', {}], {'widths': (1, 3, 6)}),
]


def cases(tier):
    out = []
    for i, (cfg, kw) in enumerate(CFGS):
        out += conform.cases_for(cfg, tier, **kw)
    out += conform.param_cases("TylerCovariance", tier, r=conform.FINE_GRID)
    out += conform.param_cases("PartialMomentsCovariance", tier, r=conform.FINE_GRID)
    out += conform.param_cases("GeodesicEwaCovariance", tier, r=conform.FINE_GRID)
    return out


run = conform.run
