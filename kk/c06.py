"""C06: direct predict/update calls, and online loops against batch runs."""

import numpy as np

from kk import gen, ref
from kk.common import (ASSUME, EKF, KF, LD, Skip, agree, corrected, ld, run_ekf, run_kf, step_check)

PROP = "C06"
RULE = ("random single steps on objects constructed with unrelated matrices and arbitrary earlier calls, keyword and "
        "positional, compared with extended-precision formulas; hand-written predict/update loops over random models "
        "compared with filter(); measurements of several sizes fused on one object; non-trivial = decided comparison; distinct by input digest")
ASSUMPTIONS = ASSUME


def decoy(case, n, m):
    """A filter object whose own configuration has nothing to do with the step."""
    rng = case.rng
    T = int(gen.pick(rng, 1, 1, 2, 3))
    case.tag(f"decoy T={T}")
    big = 1e3
    return dict(A=rng.standard_normal((T, n, n)) * big, xk=rng.standard_normal(n) * big,
                B=gen.pick(rng, None, rng.standard_normal((T, n, 2))), Pk=gen.spd(rng, n) * big,
                H=rng.standard_normal((T, m, n)) * big, Q=np.array([gen.spd(rng, n) * big] * T),
                R=np.array([gen.spd(rng, m) * big] * T))


def warm(case, call, n, m, p):
    """Some earlier calls on the same object, with other values."""
    for _ in range(int(case.rng.integers(0, 3))):
        case.count("earlier_calls")
        call()


def predict_check(case, what, gx, gP, A, x, c, P, Q):
    """Prior mean and covariance in extended precision."""
    c = ld(c)
    want = ld(A) @ ld(x) + c
    mag = np.abs(A) @ np.abs(x) + np.abs(c).astype(float)
    case.close(f"{what} mean", gx, want, 1e-11, np.where(mag > 0, mag, 1.0))
    wantP = ld(A) @ ld(P) @ ld(A).T + ld(Q)
    magP = np.abs(A) @ np.abs(P) @ np.abs(A).T + np.abs(Q)
    case.close(f"{what} covariance", gP, wantP, 1e-11, np.where(magP > 0, magP, 1.0))


def scaled_step(case):
    rng = case.rng
    mod = gen.linear(case, T=1, missing=False)
    return rng, mod


def kf_predict(case):
    rng, mod = scaled_step(case)
    n, m = mod.n, mod.m
    kf = case.lib("KalmanFilter()", KF, **decoy(case, n, m))
    p = int(rng.integers(1, 5))
    warm(case, lambda: kf.predict(Ak=rng.standard_normal((n, n)), xk=rng.standard_normal(n),
                                  Bk=rng.standard_normal((n, p)), uk=rng.standard_normal(p),
                                  Pk=gen.spd(rng, n), Qk=gen.spd(rng, n)), n, m, p)
    A, Q, P, x = mod.A[0], mod.Q[0], mod.P0, mod.x0
    B, u = rng.standard_normal((n, p)), rng.standard_normal(p)
    mode = gen.pick(rng, "given", "given", "given", "noneB", "noneU", "nanB", "nanU", "none", "zero")
    case.tag("control " + mode)
    case.desc["single"] = mode
    c = B @ u if mode == "given" else np.zeros(n)
    b, v = B, u
    if mode in ("noneB", "none"):
        b = None
    if mode in ("noneU", "none"):
        v = None
    if mode == "nanB":
        b = np.full_like(B, np.nan)
    if mode == "nanU":
        v = np.full_like(u, np.nan)
    if mode == "zero":
        v = np.zeros_like(u)
    q = Q if n > 1 or rng.random() < .5 else float(Q[0, 0])
    args = [gen.lay(rng, A), gen.lay(rng, x), None if b is None else gen.lay(rng, b),
            None if v is None else gen.lay(rng, v), gen.lay(rng, P), q]
    if rng.random() < 0.5:
        out = case.lib("predict (positional)", kf.predict, *args)
    else:
        out = case.lib("predict", kf.predict, **dict(zip(["Ak", "xk", "Bk", "uk", "Pk", "Qk"], args)))
    case.check(len(kf.kalman_gains) == 0, "predict recorded a gain")
    predict_check(case, "predict", *out, A, x, c, P, Q)
    case.nontrivial = True


def kf_update(case):
    rng, mod = scaled_step(case)
    n, m = mod.n, mod.m
    kf = case.lib("KalmanFilter()", KF, **decoy(case, n, m))
    warm(case, lambda: kf.update(Hk=rng.standard_normal((m, n)), xk=rng.standard_normal(n), Pk=gen.spd(rng, n),
                                 zk=rng.standard_normal(m), Rk=gen.spd(rng, m)), n, m, 1)
    before = len(kf.kalman_gains)
    H, R, P, x, z = mod.H[0], mod.R[0], mod.P0, mod.x0, mod.Z[0]
    zz, rr = z, R
    if m == 1 and rng.random() < .5:
        zz, rr = float(z[0]), float(R[0, 0])
    args = [gen.lay(rng, H), gen.lay(rng, x), gen.lay(rng, P), zz, rr]
    if rng.random() < 0.5:
        gx, gP = corrected(case, H, P, R, "update (positional)", kf.update, *args)
    else:
        gx, gP = corrected(case, H, P, R, "update", kf.update, **dict(zip(["Hk", "xk", "Pk", "zk", "Rk"], args)))
    y = ld(z) - ld(H) @ ld(x)
    case.check(len(kf.kalman_gains) == before + 1, "update did not record one gain")
    case.nontrivial = step_check(case, "update", x, P, H, R, y, gx, gP, kf.kalman_gains[-1])


def ekf_of(case, mod, wrong=True):
    rng = case.rng
    n, m = mod.n, mod.m
    big = 1e3
    T = int(gen.pick(rng, 1, 1, 2, 3))
    return case.lib("ExtendedKalmanFilter()", EKF, xk=rng.standard_normal(n) * big, Pk=gen.spd(rng, n) * big,
                    Q=np.array([gen.spd(rng, n) * big] * T), R=np.array([gen.spd(rng, m) * big] * T),
                    f=mod.f, h=mod.h, jacobian_A=mod.jac_a, jacobian_H=mod.jac_h)


def ekf_steps(case):
    """Direct predict and update of the extended filter at arbitrary points."""
    rng = case.rng
    mod = gen.nonlinear(case, T=1)
    n, m = mod.n, mod.m
    ekf = ekf_of(case, mod)
    u = None if mod.U is None and rng.random() < .5 else (
        np.full(m, np.nan) if mod.U is None else mod.U[0])
    for _ in range(int(rng.integers(0, 3))):
        case.count("earlier_calls")
        ekf.predict(rng.standard_normal(n), u, gen.spd(rng, n), gen.spd(rng, n))
        ekf.update(rng.standard_normal(n), gen.spd(rng, n), rng.standard_normal(m), gen.spd(rng, m))
    before = len(ekf.kalman_gains)
    x, P, Q = rng.standard_normal(n), mod.P0, mod.Q[0]
    if rng.random() < 0.5:
        px, pP = case.lib("predict", ekf.predict, x, u, P, Q)
    else:
        px, pP = case.lib("predict", ekf.predict, xk=x, uk=u, Pk=P, Qk=Q)
    J = mod.jac_a(x, u)
    case.close("EKF predict mean", px, mod.f(x, u), 1e-12, 1 + np.abs(px))
    mag = np.abs(J) @ np.abs(P) @ np.abs(J).T + np.abs(Q)
    case.close("EKF predict covariance", pP, ld(J) @ ld(P) @ ld(J).T + ld(Q), 1e-11, np.where(mag > 0, mag, 1))
    case.check(len(ekf.kalman_gains) == before, "predict recorded a gain")
    x2, P2, z, R = rng.standard_normal(n), gen.spd(rng, n), mod.Z[0], mod.R[0]
    zz, rr = (float(z[0]), float(R[0, 0])) if m == 1 and rng.random() < .5 else (z, R)
    if rng.random() < 0.5:
        gx, gP = corrected(case, mod.jac_h(x2), P2, R, "update", ekf.update, x2, P2, zz, rr)
    else:
        gx, gP = corrected(case, mod.jac_h(x2), P2, R, "update", ekf.update, xk=x2, Pk=P2, zk=zz, Rk=rr)
    H = np.asarray(mod.jac_h(x2), float)
    case.check(len(ekf.kalman_gains) == before + 1, "update did not record one gain")
    case.nontrivial = step_check(case, "EKF update", x2, P2, H, R, z - np.atleast_1d(mod.h(x2)), gx, gP,
                                 ekf.kalman_gains[-1])


def online_kf(case):
    """A hand-written loop gives what filter gives."""
    rng = case.rng
    mod = gen.linear(case)
    r = ref.recursive(mod)
    bd = ref.bands(mod, r)
    ref.require(bd)
    x, P, _ = run_kf(case, mod, gen.form(case, mod))
    own = rng.random() < 0.5
    d = gen.plain_kf(mod)
    kf = case.lib("KalmanFilter()", KF, **(decoy(case, mod.n, mod.m) if own else
                  dict(A=d["A"], xk=d["x0"], B=d["B"], Pk=d["P0"], H=d["H"], Q=d["Q"], R=d["R"])))
    gx, gP = np.zeros_like(x), np.zeros_like(P)
    cx, cP = mod.x0, mod.P0
    for k in range(mod.T):
        b = None if mod.B is None else mod.B[k]
        u = None if mod.U is None else mod.U[k]
        cx, cP = case.lib("predict", kf.predict, Ak=mod.A[k], xk=cx, Bk=b, uk=u, Pk=cP, Qk=mod.Q[k])
        cx, cP = corrected(case, mod.H[k], cP, mod.R[k], "update", kf.update, Hk=mod.H[k], xk=cx, Pk=cP, zk=mod.Z[k], Rk=mod.R[k])
        gx[k], gP[k] = cx, cP
        if rng.random() < 0.1:  # unrelated calls in between
            kf.predict(mod.A[0], mod.x0 + 1, None, None, mod.P0, mod.Q[0])
    agree(case, "online loop vs filter", gx, gP, x, P, bd, widen=2)
    agree(case, "online loop vs oracle", gx, gP, r.x, r.P, bd)
    case.count("online_steps", mod.T)
    case.nontrivial = bool(np.any(mod.H))


def online_ekf(case):
    rng = case.rng
    mod = gen.nonlinear(case, T_max=25)
    x, P, ref_ekf = run_ekf(case, mod)
    ekf = ekf_of(case, mod) if rng.random() < .5 else case.lib(
        "ExtendedKalmanFilter()", gen.ekf_from, EKF, gen.plain_nl(mod), mod)
    cx, cP = mod.x0, mod.P0
    gx, gP = np.zeros_like(x), np.zeros_like(P)
    for k in range(mod.T):
        u = np.full(mod.m, np.nan) if mod.U is None else mod.U[k]
        if not (np.isfinite(x[:k]).all()):
            raise Skip("diverged")
        cx, cP = case.lib("predict", ekf.predict, cx, u, cP, mod.Q[k])
        xp, Pp = np.array(cx), np.array(cP)
        cx, cP = corrected(case, mod.jac_h(cx), cP, mod.R[k], "update", ekf.update, cx, cP, mod.Z[k], mod.R[k])
        step_check(case, f"online EKF step {k}", xp, Pp, np.asarray(mod.jac_h(xp), float), mod.R[k],
                   mod.Z[k] - np.atleast_1d(mod.h(xp)), cx, cP)
        sd = np.sqrt(np.maximum(np.diag(Pp), 1e-300))
        sc = np.abs(xp) + np.abs(cx) + sd
        case.close(f"online EKF step {k} vs filter mean", cx, x[k], 1e-7, sc)
        case.close(f"online EKF step {k} vs filter covariance", cP, P[k], 1e-7, np.outer(sd, sd))
        gx[k], gP[k] = cx, cP
        cx, cP = x[k].copy(), P[k].copy()
    case.count("online_steps", mod.T)
    case.nontrivial = True


def altered(rng, a, keep, kind=None):
    """Another value for an argument: in the same array object, or in a new one."""
    how = gen.pick(rng, "new", "new", "near", "kin")
    if how == "near":
        new = gen.nearby(rng, a, 10.0 ** rng.uniform(-9.5, -4))
    elif how == "kin":
        new = gen.kin(rng, np.array(a)) if a.ndim == 2 else a[rng.permutation(len(a))] * rng.choice([-1, 1])
    else:
        new = gen.spd(rng, len(a)) * 10.0 ** rng.uniform(-1, 1) if kind == "cov" else rng.standard_normal(a.shape) * 2
    if keep:
        a[...] = new
        return a
    return new


def variants_kf(case):
    """Sequences of direct calls in which one argument at a time changes (in place or not)."""
    rng = case.rng
    n, m, p = int(rng.integers(1, 5)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
    kf = case.lib("KalmanFilter()", KF, **decoy(case, n, m))
    a = dict(Ak=rng.standard_normal((n, n)), xk=rng.standard_normal(n), Bk=rng.standard_normal((n, p)),
             uk=rng.standard_normal(p), Pk=gen.spd(rng, n, kind=None), Qk=gen.spd(rng, n))
    b = dict(Hk=rng.standard_normal((m, n)), xk=a["xk"], Pk=a["Pk"], zk=rng.standard_normal(m), Rk=gen.spd(rng, m))
    ok = 0
    for i in range(int(rng.integers(4, 12))):
        for d in ((a, b) if rng.random() < .5 else (b, a)):
            if rng.random() < .85:
                k = gen.pick(rng, *d)
                d[k] = altered(rng, d[k], rng.random() < .6, "cov" if k in ("Pk", "Qk", "Rk") else None)
                case.tag("changed " + k)
                if rng.random() < .3:  # shared by both, as in a user's own loop
                    b["Pk"], b["xk"] = a["Pk"], a["xk"]
            if d is a:
                out = case.lib("predict", kf.predict, **a)
                predict_check(case, f"predict {i}", *out, a["Ak"], a["xk"], ld(a["Bk"]) @ ld(a["uk"]), a["Pk"], a["Qk"])
            else:
                gx, gP = corrected(case, b["Hk"], b["Pk"], b["Rk"], "update", kf.update, **b)
                ok += bool(step_check(case, f"update {i}", b["xk"], b["Pk"], b["Hk"], b["Rk"],
                                      ld(b["zk"]) - ld(b["Hk"]) @ ld(b["xk"]), gx, gP, kf.kalman_gains[-1]))
            case.count("varied_calls")
    case.seen("variants", *a.values(), *b.values())
    case.nontrivial = ok > 0


def variants_ekf(case):
    """The same for the extended filter, with control-dependent Jacobians."""
    rng = case.rng
    mod = gen.nonlinear(case, T=1, control=True)
    n, m = mod.n, mod.m
    ekf = ekf_of(case, mod)
    a = dict(xk=rng.standard_normal(n), uk=rng.standard_normal(mod.U.shape[1]), Pk=gen.spd(rng, n), Qk=gen.spd(rng, n))
    b = dict(xk=a["xk"], Pk=a["Pk"], zk=rng.standard_normal(m), Rk=gen.spd(rng, m))
    ok = 0
    for i in range(int(rng.integers(4, 12))):
        for d in ((a, b) if rng.random() < .5 else (b, a)):
            if rng.random() < .85:
                k = gen.pick(rng, *d)
                d[k] = altered(rng, d[k], rng.random() < .6, "cov" if k in ("Pk", "Qk", "Rk") else None)
                case.tag("EKF changed " + k)
            if d is a:
                px, pP = case.lib("predict", ekf.predict, **a)
                J = mod.jac_a(a["xk"], a["uk"])
                case.close(f"EKF predict {i} mean", px, mod.f(a["xk"], a["uk"]), 1e-12, 1 + np.abs(px))
                mag = np.abs(J) @ np.abs(a["Pk"]) @ np.abs(J).T + np.abs(a["Qk"])
                case.close(f"EKF predict {i} covariance", pP, ld(J) @ ld(a["Pk"]) @ ld(J).T + ld(a["Qk"]), 1e-11,
                           np.where(mag > 0, mag, 1))
            else:
                gx, gP = corrected(case, mod.jac_h(b["xk"]), b["Pk"], b["Rk"], "update", ekf.update, **b)
                H = np.asarray(mod.jac_h(b["xk"]), float)
                ok += bool(step_check(case, f"EKF update {i}", b["xk"], b["Pk"], H, b["Rk"],
                                      b["zk"] - np.atleast_1d(mod.h(b["xk"])), gx, gP, ekf.kalman_gains[-1]))
            case.count("varied_calls")
    case.nontrivial = ok > 0


def sensors(case):
    """Measurements of different kinds and sizes fused by direct updates on one object, in any order."""
    rng = case.rng
    linear = rng.random() < .5
    n = int(rng.integers(1 if linear else 2, 6))
    kinds = [int(rng.integers(1, 6)) for _ in range(int(rng.integers(2, 5)))]
    if linear:
        obj = case.lib("KalmanFilter()", KF, **decoy(case, n, kinds[0]))
        tools = [(rng.standard_normal((m, n)), gen.spd(rng, m)) for m in kinds]
    else:
        own = [gen.nonlinear(case, T=1, n=n, m=m) for m in kinds]
        if any(q.n != n for q in own):
            raise Skip("sensors of different states")
        kinds = [q.m for q in own]
        use = [0]
        mod = own[0].but(h=lambda x: own[use[0]].h(x), jac_h=lambda x: own[use[0]].jac_h(x))
        obj = ekf_of(case, mod)
    ok = 0
    x, P = rng.standard_normal(n), gen.spd(rng, n, kind=None)
    for i in range(int(rng.integers(3, 12))):
        j = int(rng.integers(len(kinds)))
        m = kinds[j]
        before = len(obj.kalman_gains)
        if linear:
            H, R = tools[j]
            z = rng.standard_normal(m) * 2
            y = ld(z) - ld(H) @ ld(x)
            gx, gP = corrected(case, H, P, R, "update", obj.update, H, x, P, z, R)
        else:
            use[0] = j
            H, R, z = np.asarray(own[j].jac_h(x), float), own[j].R[0], own[j].Z[0]
            y = z - np.atleast_1d(own[j].h(x))
            gx, gP = corrected(case, H, P, R, "update", obj.update, x, P, z, R)
        case.check(len(obj.kalman_gains) == before + 1, "update did not record one gain")
        ok += bool(step_check(case, f"update {i} by sensor {j} (m={m})", x, P, H, R, y, gx, gP, obj.kalman_gains[-1]))
        case.count("sensor_updates")
        if rng.random() < .5:
            x, P = np.array(gx), np.array(gP) + 1e-3 * gen.spd(rng, n, kind=None)
        elif rng.random() < .5:
            x, P = rng.standard_normal(n), gen.spd(rng, n, kind=None)
    case.tag("several sensors", *(f"m={m}" for m in set(kinds)))
    case.seen("sensors", x, P, repr(kinds))
    case.nontrivial = ok > 0


FAMILIES = {
    "sensors": (200, 3000, sensors),
    "variants_kf": (250, 4000, variants_kf),
    "variants_ekf": (250, 4000, variants_ekf),
    "kf_predict": (800, 10000, kf_predict),
    "kf_update": (900, 12000, kf_update),
    "ekf_steps": (700, 9000, ekf_steps),
    "online_kf": (300, 5000, online_kf),
    "online_ekf": (200, 3000, online_ekf),
}
