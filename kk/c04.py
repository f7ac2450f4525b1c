"""C04: every backward step of the extended smoother, checked from its recorded neighbour."""

import numpy as np

from kk import c03, examples, gen
from kk.common import ASSUME, EKF, Skip, Violation, ekf_filter_check, ekf_smooth_check, run_ekf, tame

PROP = "C04"
RULE = ("random nonlinear models with regular predicted covariances, lengths 1-300; the filter estimates are "
        "recorded from a separate filter run (itself step-checked) and each backward step is compared with an "
        "extended-precision RTS step; non-trivial = at least one decided backward step; distinct by input digest")
ASSUMPTIONS = ASSUME + ["user functions are pure"]


def steps(case, T=None, **kw):
    mod = gen.nonlinear(case, T=T, smooth=True, **kw)
    f = gen.form(case, mod) if case.rng.random() < 0.8 else gen.Form()
    f.x_col = False
    mod, _, bd = tame(case, mod)
    wide = float(max(bd.tx.max(), bd.tP.max()))
    fx, fP, _ = run_ekf(case, mod)
    if not (np.isfinite(fx).all() and np.isfinite(fP).all()):
        raise Violation("filter returned non-finite numbers on a finite model")
    ekf_filter_check(case, mod, fx, fP)
    spy, log = c03.logged(case, mod)
    xs, Ps, ekf = run_ekf(case, spy, f, call="smooth")
    log = {k: list(v) for k, v in log.items()}
    n_ok = ekf_smooth_check(case, mod, fx, fP, xs, Ps, wide)
    if mod.T <= 60:
        prev, us, priors = c03.points(mod, fx)
        c03.match(case, log, mod, fx, prev, us, priors, max(1e-9, 100 * wide))
    case.count("backward_steps", mod.T - 1)
    case.nontrivial = n_ok > 0
    if case.index < 30 and n_ok > 0:
        saved = dict(case.counts), case.margin
        k = int(case.rng.integers(max(1, mod.T - 1)))
        bad = xs.copy()
        bad[k] += 1e-3 * np.sqrt(np.diag(fP[k])) + 1e-5
        try:
            ekf_smooth_check(case, mod, fx, fP, bad, Ps, wide)
            noticed = False
        except Violation:
            noticed = True
        case.counts.clear()
        case.counts.update(saved[0])
        case.margin = saved[1]
        case.count("monitor_self_tests" if noticed else "monitor_self_tests_undecided")


def main(case):
    steps(case)


def long(case):
    steps(case, T=int(gen.pick(case.rng, 60, 101, 150, 300)), big=False)


def wide(case):
    """High dimensions."""
    steps(case, T=int(case.rng.integers(2, 6)), n=int(case.rng.integers(8, 20)), m=int(case.rng.integers(1, 20)))


def deep(case):
    """Thousands of backward steps in one call."""
    steps(case, T=gen.deep_length(case), n=int(gen.pick(case.rng, 1, 2)), m=int(gen.pick(case.rng, 1, 2)))


def column(case):
    """The one-state column form: xk (1,1), scalar observations and noises."""
    rng = case.rng
    T = gen.lengths(rng, case.index)
    a, b, c = rng.uniform(0.5, 1.1), rng.uniform(0, .5), rng.uniform(0.5, 2)
    U = rng.standard_normal((T, 1)) if rng.random() < 0.6 else None

    def f(x, u):
        r = a * x + b * np.sin(x)
        return r if np.isnan(u).all() else r + u

    Q, R, Z = rng.uniform(0.1, 1, T), rng.uniform(0.1, 1, T), rng.standard_normal(T)
    x0, P0 = rng.standard_normal(1), np.array([[rng.uniform(.1, 2)]])
    case.seen("column", Q, R, Z, x0, P0, U)
    case.desc.update(model="column", T=T, control=U is not None)

    def build(x, h, ja, jh):
        return case.lib("ExtendedKalmanFilter()", EKF, xk=x, Pk=P0, Q=Q, R=R, f=f, h=h, jacobian_A=ja, jacobian_H=jh)

    one = np.array([[1.0]])

    def ja(x, u):
        return one * (a + b * np.cos(x).reshape(-1)[0])

    def jh(x):
        return one * c
    vec = build(x0, lambda x: c * x, ja, jh)
    col = build(x0.reshape(1, 1), lambda x: c * x, ja, jh)
    fx, fP = case.lib("filter", vec.filter, Z, U)
    mod = gen.Nl(f=f, h=lambda x: c * x, jac_a=ja, jac_h=jh, Q=Q.reshape(T, 1, 1), R=R.reshape(T, 1, 1), x0=x0,
                 P0=P0, U=U, Z=Z.reshape(T, 1), m=1, scalar_h=False, fam="column")
    ekf_filter_check(case, mod, fx, fP)
    for e in (vec, col):
        xs, Ps = case.lib("smooth", e.smooth, Z, U)
        ekf_smooth_check(case, mod, fx, fP, xs, Ps)
    case.tag("one-state column form")
    case.nontrivial = T > 1


def shipped(case):
    examples.ekf_case(case, "smooth")


FAMILIES = {
    "steps": (700, 12000, main),
    "column": (80, 1000, column),
    "long": (30, 400, long),
    "wide": (50, 600, wide),
    "deep": (8, 64, deep),
    "shipped": (3, 12, shipped),
}
