"""C02: linear smoothing against joint conditioning of the whole sequence."""

import numpy as np

from kk import gen, ref, examples
from kk.common import ASSUME, agree, cross_check, probe, run_kf

PROP = "C02"
RULE = ("random linear-Gaussian models with regular predicted covariances, smoothed over their whole "
        "sequence (lengths 1-1000, time-varying everything, all control modes and memory forms); "
        "non-trivial = length >= 2, decided steps and non-zero observations; distinct by input digest")
ASSUMPTIONS = ASSUME


def finish(case, mod, want=None, f=None, what="smoothed"):
    r = ref.recursive(mod, True)
    bd = ref.bands(mod, r, True)
    ref.require(bd)
    if want is None:
        want = r
    else:
        cross_check(case, want, r, bd, smooth=True)
    xs, Ps, kf = run_kf(case, mod, f or gen.form(case, mod), call="smooth")
    agree(case, what, xs, Ps, want.xs, want.Ps, bd, smooth=True)
    probe(case, what, xs, Ps, want.xs, want.Ps, bd, smooth=True)
    sc = bd.sx[-1]
    case.close("last smoothed = last filtered mean", xs[-1], r.x[-1], bd.tx[-1], sc)
    case.close("last smoothed = last filtered covariance", Ps[-1], r.P[-1], bd.tP[-1], bd.sP[-1])
    case.nontrivial = mod.T > 1 and bool(np.any(mod.H))
    case.count("backward_steps", mod.T - 1)


def joint(case):
    mod = gen.linear(case, smooth=True)
    if mod.T * mod.m > 150:
        mod = mod.cut(0, max(1, 150 // mod.m))
    finish(case, mod, ref.batch(mod))


def recursion(case):
    finish(case, gen.linear(case, smooth=True))


def rational(case):
    mod = gen.grid(case, T=int(case.rng.integers(1, 5)), smooth=True)
    case.count("exact_oracle_runs")
    finish(case, mod, ref.exact(mod), gen.form(case, mod, typed=case.rng.random() < .7))


def grids(case):
    mod = gen.grid(case, smooth=True, step=gen.pick(case.rng, 1.0, 1.0, 0.25))
    finish(case, mod, None, gen.form(case, mod, typed=True))


def long(case):
    T = int(gen.pick(case.rng, 60, 100, 130, 200, 300))
    if case.index % 20 == 0:
        T = 1000
    finish(case, gen.linear(case, T=T, smooth=True, big=False, stable=True))


def deep(case):
    """Thousands of backward steps."""
    finish(case, gen.linear(case, T=gen.deep_length(case), n=int(gen.pick(case.rng, 1, 2)),
                            m=int(gen.pick(case.rng, 1, 2)), p=1, smooth=True, stable=True))


def wide(case):
    finish(case, gen.linear(case, T=int(case.rng.integers(1, 6)), n=int(case.rng.integers(8, 22)),
                            m=int(case.rng.integers(1, 22)), smooth=True))


def loose(case):
    """Models with small, rank-deficient or zero process noise that stay regular."""
    if case.rng.random() < .2:
        return finish(case, gen.exact_sensors(case, gen.linear(case, smooth=True, scaled=False, big=False)))
    finish(case, gen.linear(case, smooth=False))


def shipped(case):
    examples.kf_case(case, "smooth")


FAMILIES = {
    "joint": (700, 10000, joint),
    "recursion": (900, 16000, recursion),
    "rational": (140, 1500, rational),
    "grids": (400, 6000, grids),
    "loose": (400, 6000, loose),
    "wide": (60, 800, wide),
    "long": (40, 600, long),
    "deep": (8, 64, deep),
    "shipped": (5, 24, shipped),
}
