"""C16: HuberCovariance and AdaptiveEwaCovariance react to surprise as documented.

Reference-model conformance: the real estimator and the definition, computed independently (mc/ref.py),
step through every word of operation trees (from nothing and across the end of the burn-in), every
single deviation at every position, and long streams over a grid of decay rates, widths, scales.
"""
from __future__ import annotations

from mc import conform

PROPERTY = "C16"
LEVEL = "model_checking"
ASSUMPTIONS = ["paths on which the definition inverts a matrix of condition > 1e9 are skipped (counted)"]

CFGS = [
    (['HuberCovariance', {}], {}),
    (['AdaptiveEwaCovariance', {}], {}),
    (['HuberCovariance', {'c': 0.6}], {'widths': (1, 3, 6)}),
    (['HuberCovariance', {'c': 50.0}], {'widths': (1, 2, 5), 'trees': False}),
    (['AdaptiveEwaCovariance', {'max_r': 0.2}], {'widths': (1, 3, 6)}),
    (['AdaptiveEwaCovariance', {'max_r': 1.0}], {'widths': (1, 2, 5), 'trees': False}),
]


def cases(tier):
    out = []
    for i, (cfg, kw) in enumerate(CFGS):
        out += conform.cases_for(cfg, tier, **kw)
    out += conform.param_cases("HuberCovariance", tier, r=conform.FINE_GRID)
    out += conform.param_cases("HuberCovariance", tier, c=(0.01, 0.1, 0.3, 0.7, 1.0, 1.345, 1.5, 2.0, 2.5, 3.0, 4.0, 6.0, 9.0, 15.0, 40.0, 1e3, 1e6))
    out += conform.param_cases("AdaptiveEwaCovariance", tier, r=conform.FINE_GRID)
    out += conform.param_cases("AdaptiveEwaCovariance", tier, max_r=conform.FINE_GRID + (0.3, 0.08, 0.31, 1.0))
    return out


run = conform.run
