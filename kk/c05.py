"""C05: differential run of the two filters on the same linear model."""

import numpy as np

from kk import gen, ref
from kk.common import ASSUME, agree, agree_gains, gain_scale, gain_tol, run_ekf, run_kf

PROP = "C05"
RULE = ("random linear models with constant observation matrix given to both classes (time-varying transition and "
        "control reach the extended filter through its control rows), filter, smooth and gains compared; "
        "non-trivial = decided steps with non-zero observations; distinct by input digest")
ASSUMPTIONS = ASSUME


def model(case, smooth, const=False, **kw):
    mod = gen.linear(case, smooth=smooth, **kw)
    mod.H = np.tile(mod.H[0], (mod.T, 1, 1))
    if const:
        mod.A = np.tile(mod.A[0], (mod.T, 1, 1))
    return mod


def compare(case, mod, smooth, no_u=False):
    r = ref.recursive(mod, smooth)
    bd = ref.bands(mod, r, smooth)
    ref.require(bd)
    f = gen.form(case, mod)
    nl = gen.as_nonlinear(mod)
    if no_u and nl.const:
        nl = nl.but(U=None)
        case.tag("EKF without control")
    g = gen.Form(**{**f.__dict__, "x_col": False})
    x, P, kf = run_kf(case, mod, f)
    y, C, ekf = run_ekf(case, nl, g)
    agree(case, "extended vs standard filter", y, C, x, P, bd, widen=2)
    agree(case, "standard filter vs oracle", x, P, r.x, r.P, bd)
    case.check(len(kf.kalman_gains) == len(ekf.kalman_gains) == mod.T,
               f"gain counts {len(kf.kalman_gains)}, {len(ekf.kalman_gains)} for {mod.T} steps")
    sc = gain_scale(mod, r)
    tol = gain_tol(mod, r, sc)
    for k in np.flatnonzero(tol < 0.05):
        case.close(f"extended vs standard gain {k}", ekf.kalman_gains[k], kf.kalman_gains[k], 2 * tol[k], sc[k])
    agree_gains(case, "standard", kf.kalman_gains, mod, r)
    if smooth:
        x, P, kf = run_kf(case, mod, f, call="smooth")
        y, C, ekf = run_ekf(case, nl, g, call="smooth")
        agree(case, "extended vs standard smoother", y, C, x, P, bd, smooth=True, widen=2)
        agree(case, "standard smoother vs oracle", x, P, r.xs, r.Ps, bd, smooth=True)
        for k in np.flatnonzero(tol < 0.05):
            case.close(f"smoother gain {k}", ekf.kalman_gains[k], kf.kalman_gains[k], 2 * tol[k], sc[k])
    case.nontrivial = bool(np.any(mod.H))


def filtering(case):
    compare(case, model(case, False), False)


def smoothing(case):
    compare(case, model(case, True), True)


def plain(case):
    """Time-invariant models without any control, U left out for both."""
    mod = model(case, True, const=True, control="none")
    compare(case, mod, True, no_u=True)


def long(case):
    mod = model(case, True, T=int(gen.pick(case.rng, 80, 130, 300)), big=False, stable=True)
    compare(case, mod, True)


def deep(case):
    compare(case, model(case, True, T=gen.deep_length(case), n=int(gen.pick(case.rng, 1, 2)),
                        m=int(gen.pick(case.rng, 1, 2)), p=1, stable=True), True)


def wide(case):
    compare(case, model(case, True, T=int(case.rng.integers(2, 6)), n=int(case.rng.integers(8, 20)),
                        m=int(case.rng.integers(1, 20))), True)


FAMILIES = {
    "filtering": (500, 8000, filtering),
    "smoothing": (500, 8000, smoothing),
    "plain": (250, 3000, plain),
    "long": (20, 300, long),
    "wide": (40, 500, wide),
    "deep": (8, 48, deep),
}
