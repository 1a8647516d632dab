"""C20: Block, Schur, SchurLedoitWolf and SchurConditional damp cross-block coupling as documented.

Reference-model conformance: the real estimator and the definition, computed independently (mc/ref.py),
step through every word of operation trees (from nothing and across the end of the burn-in), every
single deviation at every position, and long streams over a grid of decay rates, widths, scales.
"""
from __future__ import annotations

from mc import conform

PROPERTY = "C20"
LEVEL = "model_checking"
ASSUMPTIONS = ["paths on which the definition inverts a matrix of condition > 1e9 are skipped (counted)"]

CFGS = [
    (['BlockCovariance', {}], {'widths': (1, 3, 6)}),
    (['BlockCovariance', {'n_blocks': 2}], {'widths': (1, 3, 6)}),
    (['BlockCovariance', {'n_blocks': 1}], {'widths': (1, 2, 5), 'trees': False}),
    (['SchurCovariance', {}], {'widths': (1, 3, 6)}),
    (['SchurCovariance', {'n_blocks': 2, 'gamma': 0.0}], {'widths': (1, 2, 5), 'trees': False}),
    (['SchurCovariance', {'n_blocks': 3, 'gamma': 1.0}], {'widths': (1, 2, 5), 'trees': False}),
    (['SchurCovariance', {'n_blocks': 2, 'gamma': 0.3, 'interpolation': 'geodesic'}], {'widths': (1, 2, 5), 'trees': False}),
    (['SchurCovariance', {'gamma': 1.0, 'interpolation': 'geodesic'}], {'widths': (1, 2, 5), 'trees': False}),
    (['SchurLedoitWolfCovariance', {}], {'widths': (1, 3, 6)}),
    (['SchurLedoitWolfCovariance', {'n_blocks': 2}], {}),
    (['SchurLedoitWolfCovariance', {'n_blocks': 1}], {'widths': (1, 2, 5), 'trees': False}),
    (['SchurConditionalCovariance', {}], {'widths': (1, 3, 6)}),
    (['SchurConditionalCovariance', {'n_blocks': 2}], {'widths': (1, 3, 6)}),
    (['SchurConditionalCovariance', {'n_blocks': 1}], {'widths': (1, 2, 5), 'trees': False}),
]


def cases(tier):
    out = []
    for i, (cfg, kw) in enumerate(CFGS):
        out += conform.cases_for(cfg, tier, **kw)
    out += conform.param_cases("BlockCovariance", tier, r=conform.FINE_GRID)
    out += conform.param_cases("BlockCovariance", tier, n_blocks=(1, 2, 3, 4, 5, 6, 7, 8, 9, 30))
    out += conform.param_cases("SchurCovariance", tier, r=conform.FINE_GRID)
    out += conform.param_cases("SchurCovariance", tier, gamma=conform.FINE_GRID + (0.0, 1.0), interpolation=("linear", "geodesic"), n_blocks=(2, 3))
    out += conform.param_cases("SchurCovariance", tier, n_blocks=(1, 4, 5, 6, 7, 8, 9, 30), interpolation=("linear", "geodesic"))
    out += conform.param_cases("SchurLedoitWolfCovariance", tier, r=conform.FINE_GRID)
    out += conform.param_cases("SchurLedoitWolfCovariance", tier, n_blocks=(1, 2, 3, 4, 5, 6, 7, 8, 9, 30))
    out += conform.param_cases("SchurConditionalCovariance", tier, r=conform.FINE_GRID)
    out += conform.param_cases("SchurConditionalCovariance", tier, n_blocks=(1, 2, 3, 4, 5, 6, 7, 8, 9, 30))
    return out


run = conform.run
