"""The shipped examples and the quickstart as workloads, recorded at the client boundary."""

import importlib.util
import os

import numpy as np

import kalmankit

from kk import gen, ref
from kk.common import Skip, agree, ekf_filter_check, ekf_smooth_check
from kk.core import REPO

KF_EXAMPLES = ["moving_average", "market_beta", "constant_velocity_smoothing", "quickstart"]
EKF_EXAMPLES = ["pendulum", "pendulum_smoothing"]


def record(case, name):
    """Run an example's main() with recording subclasses in place of the filters."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    log = []

    def recorder(cls):
        class Recorder(cls):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                self._in = 0

            def _call(self, name, Z, U):
                self._in += 1
                try:
                    out = getattr(super(), name)(Z=Z, U=U)
                finally:
                    self._in -= 1
                if not self._in:
                    log.append((cls.__name__, name, self, np.array(Z),
                                None if U is None else np.array(U), out))
                return out

            def filter(self, Z, U=None):
                return self._call("filter", Z, U)

            def smooth(self, Z, U=None):
                return self._call("smooth", Z, U)
        return Recorder

    old = kalmankit.KalmanFilter, kalmankit.ExtendedKalmanFilter
    kalmankit.KalmanFilter, kalmankit.ExtendedKalmanFilter = map(recorder, old)
    state = np.random.get_state()
    np.random.seed(int(case.rng.integers(2**31)))
    try:
        if name == "quickstart":
            case.lib("quickstart", quickstart)
        else:
            path = os.path.join(REPO, "examples", name + ".py")
            spec = importlib.util.spec_from_file_location("kk_example_" + name, path)
            mod = importlib.util.module_from_spec(spec)
            case.lib(f"example {name}", spec.loader.exec_module, mod)
            np.random.seed(int(case.rng.integers(2**31)))
            case.lib(f"example {name}", mod.main)
    finally:
        plt.close("all")
        np.random.set_state(state)
        kalmankit.KalmanFilter, kalmankit.ExtendedKalmanFilter = old
    case.check(bool(log), f"example {name} ran no filter")
    case.desc.update(example=name, calls=[e[1] for e in log])
    case.tag(f"example:{name}")
    case.seen(name, *[e[3] for e in log])
    return log


def quickstart():
    """docs/source/quickstart.rst"""
    space = np.arange(-10, 10, 0.1)
    Z = np.array([0.02 * x + 0.3 * np.random.randn() for x in range(len(space))]) + np.sin(space)
    A = np.expand_dims(np.ones((len(Z), 1)), axis=1)
    kf = kalmankit.KalmanFilter(A=A, xk=np.array([[1]]), B=None, Pk=np.array([[1]]), H=A.copy(),
                                Q=np.ones(len(Z)) * 0.005, R=np.ones(len(Z)) * 0.01)
    kf.filter(Z=Z, U=None)
    kf.smooth(Z=Z, U=None)


def lin_of(kf, Z, U):
    T = len(Z)
    x0 = np.asarray(kf.xk, float).reshape(-1)
    n = len(x0)
    Z = Z.reshape(T, -1).astype(float)
    m = Z.shape[1]
    return gen.Lin(A=np.array(kf.A, float)[:T], B=None if np.isnan(kf.B).all() else np.array(kf.B, float)[:T],
                   H=np.array(kf.H, float)[:T], Q=np.array(kf.Q, float)[:T].reshape(T, n, n),
                   R=np.array(kf.R, float)[:T].reshape(T, m, m), x0=x0,
                   P0=np.array(kf.Pk, float), U=U, Z=Z)


def kf_case(case, call):
    name = KF_EXAMPLES[case.index % len(KF_EXAMPLES)]
    decided = 0
    for cls, what, obj, Z, U, out in record(case, name):
        if cls != "KalmanFilter" or what != call:
            continue
        mod = lin_of(obj, Z, U)
        r = ref.recursive(mod, call == "smooth")
        bd = ref.bands(mod, r, call == "smooth")
        if call == "smooth":
            agree(case, f"example {name} smoothed", *out, r.xs, r.Ps, bd, smooth=True)
        else:
            agree(case, f"example {name} filtered", *out, r.x, r.P, bd)
        decided += 1
        case.count("time_steps", len(Z))
    if not decided:
        raise Skip("example does not use this call")
    case.nontrivial = True


def ekf_case(case, call):
    name = EKF_EXAMPLES[case.index % len(EKF_EXAMPLES)]
    log = record(case, name)
    decided = 0
    for cls, what, obj, Z, U, out in log:
        if cls != "ExtendedKalmanFilter" or what != call:
            continue
        T, n = len(Z), len(obj.xk)
        mod = gen.Nl(f=obj.f, h=obj.h, jac_a=obj.jacobian_A, jac_h=obj.jacobian_H,
                     Q=np.asarray(obj.Q)[:T], R=np.asarray(obj.R)[:T].reshape(T, 1, 1), x0=obj.xk, P0=obj.Pk,
                     U=U, Z=Z.reshape(T, -1), m=1, scalar_h=True, fam="example")
        if call == "filter":
            ekf_filter_check(case, mod, *out)
        else:
            fx, fP = kalmankit.ExtendedKalmanFilter.filter(obj, Z, U)
            ekf_smooth_check(case, mod, fx, fP, *out)
        decided += 1
        case.count("time_steps", T)
    if not decided:
        raise Skip("example does not use this call")
    case.nontrivial = True
