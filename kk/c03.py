"""C03: every step of the extended filter, checked from its recorded predecessor."""

import numpy as np

from kk import examples, gen
from kk.common import ASSUME, EKF, Violation, ekf_filter_check, run_ekf

PROP = "C03"
RULE = ("random nonlinear models (network, bilinear in control, polynomial, range, pendulum; dimensions 1-8, "
        "lengths 1-400, time-varying Q/R, missing controls, scalar/vector h, memory forms); every step is checked "
        "against an extended-precision step from the recorded previous estimate and every callback evaluation "
        "point is logged and matched; non-trivial = decided steps; distinct by input digest")
ASSUMPTIONS = ASSUME + ["user functions are pure"]


def logged(case, mod):
    """mod with callbacks that log their evaluation points (snapshots)."""
    log = dict(f=[], h=[], jac_a=[], jac_h=[])

    def spy(name, fn, two):
        if two:
            def g(x, u, /):
                log[name].append((np.array(x, float), None if u is None else np.array(u, float)))
                return fn(x, u)
        else:
            def g(x, /):
                log[name].append((np.array(x, float), None))
                return fn(x)
        return g

    return mod.but(f=spy("f", mod.f, True), jac_a=spy("jac_a", mod.jac_a, True),
                   h=spy("h", mod.h, False), jac_h=spy("jac_h", mod.jac_h, False)), log


def points(mod, x):
    """Legitimate evaluation points: (previous estimate, control) pairs and prior means."""
    prev = [np.asarray(mod.x0, float).reshape(-1)] + [np.array(v) for v in x[:-1]]
    us = [np.full(np.shape(mod.Z[k]), np.nan) if mod.U is None else mod.U[k] for k in range(mod.T)]
    priors = [np.asarray(mod.f(p, u), float) for p, u in zip(prev, us)]
    return prev, us, priors


def match(case, log, mod, x, prev, us, priors, tol=1e-9):
    def near(a, b):
        return a.shape == b.shape and np.all(np.abs(a - b) <= tol * (1 + np.abs(b)))
    for name in ("f", "jac_a"):
        for px, pu in log[name]:
            ok = any(near(px.reshape(-1), p) and (pu is not None and pu.size == u.size and
                     np.array_equal(pu.reshape(-1), np.reshape(u, -1), equal_nan=True))
                     for p, u in zip(prev, us))
            case.check(ok, f"{name} was evaluated at a point that is no (previous estimate, control) pair "
                           f"of the run: x={px.tolist()} u={None if pu is None else pu.tolist()}")
    for name in ("h", "jac_h"):
        for px, _ in log[name]:
            case.check(any(near(px.reshape(-1), p) for p in priors),
                       f"{name} was evaluated at {px.tolist()}, which is no prior mean of the run")
    for name in log:
        case.count("callback_evaluations:" + name, len(log[name]))


def steps(case, T=None, **kw):
    mod = gen.nonlinear(case, T=T, **kw)
    if case.rng.random() < .06:
        mod = gen.exact_sensors(case, mod)
    f = gen.form(case, mod) if case.rng.random() < 0.8 else gen.Form()
    f.x_col = False
    spy, log = logged(case, mod)
    x, P, ekf = run_ekf(case, spy, f)
    log = {k: list(v) for k, v in log.items()}
    gains = ekf.kalman_gains
    case.check(len(gains) == mod.T, f"{len(gains)} gains for {mod.T} steps")
    ekf_filter_check(case, mod, x, P, gains)
    if np.isfinite(x).all() and mod.T <= 60:
        match(case, log, mod, x, *points(mod, x))
    case.nontrivial = True
    if case.index < 30:
        self_test(case, mod, x, P)


def self_test(case, mod, x, P):
    """The step monitor must reject a slightly falsified estimate."""
    saved = dict(case.counts), case.margin
    k = int(case.rng.integers(mod.T))
    bad = x.copy()
    bad[k] += 1e-3 * np.sqrt(np.diag(P[k])) + 1e-5
    try:
        ekf_filter_check(case, mod, bad, P)
    except Violation:
        case.counts.clear()
        case.counts.update(saved[0])
        case.margin = saved[1]
        case.count("monitor_self_tests")
    else:
        case.count("monitor_self_tests_undecided")


def main(case):
    steps(case)


def long(case):
    steps(case, T=int(gen.pick(case.rng, 60, 101, 150, 400)), big=False)


def wide(case):
    """High dimensions."""
    steps(case, T=int(case.rng.integers(1, 6)), n=int(case.rng.integers(8, 24)), m=int(case.rng.integers(1, 24)))


def deep(case):
    """Thousands of steps in one call."""
    steps(case, T=gen.deep_length(case), n=int(gen.pick(case.rng, 1, 2)), m=int(gen.pick(case.rng, 1, 2)))


def column(case):
    """The one-state column form of the tests: xk (1,1), scalar data, column callbacks."""
    rng = case.rng
    T = gen.lengths(rng, case.index)
    a, b, c, d = rng.uniform(0.5, 1.1), rng.uniform(0, .5), rng.uniform(0.5, 2), rng.uniform(0, .5)
    has_u = rng.random() < 0.6
    U = rng.standard_normal((T, 1)) if has_u else None

    def f0(x, u):
        r = a * x + b * np.sin(x)
        return r if np.isnan(u).all() else r + u

    mod = gen.Nl(f=f0, h=lambda x: c * x + d * np.cos(x), jac_a=lambda x, u: np.array([[1.0]]) * (a + b * np.cos(x)),
                 jac_h=lambda x: np.array([[1.0]]) * (c - d * np.sin(x)), Q=rng.uniform(0, 1, (T, 1, 1)),
                 R=rng.uniform(0.1, 1, (T, 1, 1)), x0=rng.standard_normal(1), P0=np.array([[rng.uniform(.1, 2)]]),
                 U=U, Z=rng.standard_normal((T, 1)), m=1, scalar_h=False, fam="column")
    case.seen("column", mod.Q, mod.R, mod.x0, mod.P0, U, mod.Z)
    case.desc.update(model="column", T=T, control=has_u)
    ekf = case.lib("ExtendedKalmanFilter()", EKF, xk=mod.x0.reshape(1, 1), Pk=mod.P0, Q=mod.Q[:, 0, 0],
                   R=mod.R[:, 0, 0], f=mod.f, h=mod.h, jacobian_A=mod.jac_a, jacobian_H=mod.jac_h)
    x, P = case.lib("filter", ekf.filter, mod.Z[:, 0], U)
    flat = mod.but(h=lambda x: np.reshape(mod.h(x), -1), jac_a=lambda x, u: np.reshape(mod.jac_a(x, u), (1, 1)),
                   jac_h=lambda x: np.reshape(mod.jac_h(x), (1, 1)), f=lambda x, u: np.reshape(mod.f(x, u), -1))
    ekf_filter_check(case, flat, x, P)
    case.tag("one-state column form")
    case.nontrivial = True


def shipped(case):
    examples.ekf_case(case, "filter")


FAMILIES = {
    "steps": (1000, 16000, main),
    "column": (100, 1500, column),
    "long": (40, 600, long),
    "wide": (60, 800, wide),
    "deep": (8, 64, deep),
    "shipped": (3, 12, shipped),
}
