"""Shared helpers of the checks: running the library and comparing with oracles."""

import numpy as np

from kalmankit import ExtendedKalmanFilter as EKF
from kalmankit import KalmanFilter as KF

from kk import gen, ref
from kk.core import Skip, Violation  # noqa: F401
from kk.ref import LD, ld

MAX_TOL = 0.05


def cross_check(case, a, b, bd, smooth=False):
    """Two oracles must agree well inside the tolerance, or the run decides nothing."""
    pairs = [(a.x, b.x, bd.sx, bd.tx[:, None]), (a.P, b.P, bd.sP, bd.tP[:, None, None])]
    if smooth:
        pairs = [(a.xs, b.xs, bd.ssx, bd.stx[:, None]), (a.Ps, b.Ps, bd.ssP, bd.stP[:, None, None])]
    for p, q, s, t in pairs:
        if not np.max(np.abs(np.asarray(p) - np.asarray(q)) / (s * t)) < 0.05:
            raise Skip("oracles disagree (amplification beyond extended precision)")
    case.count("oracle_cross_checks")


def shapes(case, what, x, P, T, n):
    case.check(isinstance(x, np.ndarray) and isinstance(P, np.ndarray), f"{what}: arrays returned")
    case.check(x.shape == (T, n) and P.shape == (T, n, n),
               f"{what}: shapes {x.shape}, {P.shape} for T={T}, n={n}")


def frail(mod, own):
    """Whether some form equal in exact arithmetic breaks down on this model by rounding alone."""
    for style in ("doc",) + ref.STYLES:
        try:
            r = own(mod, style)
        except Skip:
            return True
        if not (np.isfinite(r.x).all() and np.isfinite(r.P).all()):
            return True
        d = np.sqrt(np.maximum(np.einsum("kii->ki", r.Pp), 0))
        if (np.abs(r.Pp - r.Pp.transpose(0, 2, 1)) > 1e-3 * d[:, :, None] * d[:, None, :]).any():
            return True
        H = getattr(mod, "H", None)
        H = [np.asarray(mod.jac_h(x), float) for x in r.xp] if H is None else H
        for h, p, q in zip(H, r.Pp, mod.R):
            S = h @ p @ h.T + q
            top = np.diag(S)
            if not (top > 0).all() or np.linalg.eigvalsh(ref.sym(S) / np.sqrt(np.outer(top, top)))[0] < 1e-12:
                return True
    return False


def solved(case, mod, own, what, fn, *a):
    """case.lib, except that a singular matrix is no verdict where rounding alone can produce it."""
    try:
        return case.lib(what, fn, *a)
    except Violation as e:
        if isinstance(e.__cause__, np.linalg.LinAlgError) and frail(mod, own):
            raise Skip("numerically singular innovation covariance in one of the equal forms") from None
        raise


def computed(case, what, fn, *args):
    """case.lib where a numerically singular model is not the property's business."""
    try:
        return case.lib(what, fn, *args)
    except Violation as e:
        if isinstance(e.__cause__, np.linalg.LinAlgError):
            raise Skip("model became singular") from None
        raise


def corrected(case, H, P, R, what, fn, *a, **k):
    """case.lib for one update, except that a singular matrix is no verdict where S is one up to rounding."""
    try:
        return case.lib(what, fn, *a, **k)
    except Violation as e:
        if isinstance(e.__cause__, np.linalg.LinAlgError):
            S = np.atleast_2d(np.asarray(H, float) @ np.asarray(P, float) @ np.asarray(H, float).T + R)
            top = np.diag(S)
            if not (top > 0).all() or np.linalg.eigvalsh(ref.sym(S) / np.sqrt(np.outer(top, top)))[0] < 1e-12:
                raise Skip("numerically singular innovation covariance") from None
        raise


def run_kf(case, mod, f=None, what="filter", call="filter"):
    f = f or gen.Form()
    d = gen.hand_over(case, mod, f)
    kf = case.lib("KalmanFilter()", gen.kf_from, KF, d, mod.n if f.size else None)
    own = lambda m, s: ref.run64(m, call == "smooth", style=s)  # noqa: E731
    x, P = solved(case, mod, own, f"KalmanFilter.{call}", getattr(kf, call), d["Z"], d["U"])
    shapes(case, call, x, P, mod.T, mod.n)
    return x, P, kf


def run_ekf(case, mod, f=None, call="filter"):
    f = f or gen.Form()
    d = gen.hand_over_nl(case, mod, f)
    ekf = case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, d, mod)
    own = lambda m, s: ekf64(m, None, s, call == "smooth")  # noqa: E731
    x, P = solved(case, mod, own, f"ExtendedKalmanFilter.{call}", getattr(ekf, call), d["Z"], d["U"])
    shapes(case, call, x, P, mod.T, mod.n)
    return x, P, ekf


def steps(tol):
    return tol < MAX_TOL


def agree(case, what, x, P, rx, rP, b, smooth=False, widen=1.0):
    """Compare every step whose rounding envelope is narrow enough to decide."""
    sx, sP, tx, tP = (b.ssx, b.ssP, b.stx, b.stP) if smooth else (b.sx, b.sP, b.tx, b.tP)
    ok = steps(tx) & steps(tP)
    case.count("steps_decided", int(ok.sum()))
    case.count("steps_undecided", int((~ok).sum()))
    if not ok.any():
        raise Skip("no step decidable")
    case.close(f"{what} mean", np.asarray(x)[ok], np.asarray(rx)[ok], widen * tx[ok][:, None], sx[ok])
    case.close(f"{what} covariance", np.asarray(P)[ok], np.asarray(rP)[ok],
               widen * tP[ok][:, None, None], sP[ok])


def probe(case, what, x, P, rx, rP, b, smooth=False):
    """The monitor must reject a slightly falsified copy of the same output."""
    if case.index >= 40:
        return
    k = int(case.rng.integers(len(x)))
    i = int(case.rng.integers(x.shape[1]))
    sx, sP, tx, tP = (b.ssx, b.ssP, b.stx, b.stP) if smooth else (b.sx, b.sP, b.tx, b.tP)
    if tx[k] > 1e-7 or tP[k] > 1e-7:
        return
    bad = np.array(x)
    bad[k, i] += 1e-6 * sx[k, i]
    badP = np.array(P)
    badP[k, i, i] += 1e-6 * sP[k, i, i]
    for a, c in ((bad, P), (x, badP)):
        before = dict(case.counts), case.margin
        try:
            agree(case, what, a, c, rx, rP, b, smooth)
        except Violation:
            case.counts.clear()
            case.counts.update(before[0])
            case.margin = before[1]
            case.count("monitor_self_tests")
        else:
            raise RuntimeError("monitor self-test: a falsified result was accepted")


def gain_scale(mod, r):
    """Natural units of the gain entries at each step."""
    sd = np.sqrt(np.maximum(np.einsum("kii->ki", r.Pp), 0)).astype(float)
    H = mod.H
    S = np.einsum("kij,kjl,kml->kim", H, r.Pp.astype(float), H) + mod.R[:mod.T]
    so = np.sqrt(np.maximum(np.einsum("kii->ki", S), 0))
    top = sd.max(axis=0)
    sd = np.where(sd > 0, sd, np.where(top > 0, top, 1.0))
    sd = np.maximum(sd, 1e-6 * sd.max(axis=0))
    return sd[:, :, None] / so[:, None, :]


def gain_tol(mod, r, scale):
    rng = np.random.default_rng(777)
    e = np.zeros(mod.T)
    for style, g in (("doc", rng), ("doc", rng)) + tuple((s, None) for s in ref.STYLES):
        q = ref.run64(mod, rng=g, style=style)
        e = np.maximum(e, np.max(np.abs(q.K - r.K).astype(float) / scale, axis=(1, 2)))
    return ref.FLOOR + ref.FACTOR * ref._run_max(e)


def agree_gains(case, what, gains, mod, r):
    case.check(len(gains) == mod.T, f"{what}: {len(gains)} gains for {mod.T} updates")
    sc = gain_scale(mod, r)
    tol = gain_tol(mod, r, sc)
    ok = tol < MAX_TOL
    for k in np.flatnonzero(ok):
        case.close(f"{what} gain {k}", np.asarray(gains[k]), r.K[k], tol[k], sc[k])


# ---------------------------------------------------------------- local monitor

def step_check(case, what, xp, Pp, H, R, y, gx, gP, K=None, raw=()):
    """One correction from (xp, Pp) must be the optimal one (extended precision).

    raw: predicted covariances with the rounding of the recorded estimate they came from,
    which equivalent formulas propagate differently.
    """
    Pp = np.asarray(Pp, dtype=LD)
    rx, rP, rK = ref.update_ld(xp, ref.sym(Pp), H, R, y)
    sd = np.sqrt(np.maximum(np.diag(Pp), 0)).astype(float)
    sd = np.where(sd > 0, sd, 1.0)
    sx = np.abs(rx).astype(float) + np.abs(np.asarray(xp, float)) + sd
    d = np.sqrt(np.maximum(np.diag(rP), 0)).astype(float)
    d = np.maximum(d, (.1 if ref.noise_free(R) else 1e-5) * sd)
    so = np.sqrt(np.diag(np.atleast_2d(H @ Pp.astype(float) @ H.T + R)))
    ex = eP = eK = 0.0
    rng = np.random.default_rng(99)
    P64 = Pp.astype(float)
    x64, y64 = np.asarray(xp, float), np.asarray(y, float)
    starts = [P64] + list(raw)
    for style, p0 in [("doc", P64)] + [(s, p) for s in ("doc",) + ref.STYLES for p in starts]:
        def w(a):
            return a * (1 + 2.5e-16 * rng.standard_normal(np.shape(a)))
        p, h, rr = w(p0), w(H), w(R)
        try:
            G, P2 = ref.correct64(style, p, h, rr)
        except np.linalg.LinAlgError:
            raise Skip("singular innovation covariance") from None
        x2 = w(x64) + G @ w(y64)
        ex = max(ex, float(np.max(np.abs(x2 - rx) / sx)))
        eP = max(eP, float(np.max(np.abs(P2 - rP) / np.outer(d, d))))
        eK = max(eK, float(np.max(np.abs(G - rK) / np.outer(sd, 1 / so))))
    # error made in forming the innovation itself
    tx, tP = ref.FLOOR + ref.FACTOR * ex, ref.FLOOR + ref.FACTOR * eP
    if not (tx < MAX_TOL and tP < MAX_TOL):
        case.count("steps_undecided")
        return False
    case.count("steps_decided")
    case.close(f"{what} mean", gx, rx, tx, sx)
    case.close(f"{what} covariance", gP, rP, tP, np.outer(d, d))
    if K is not None:
        case.close(f"{what} gain", K, rK, max(tx, tP, ref.FACTOR * eK), np.outer(sd, 1 / so))
    return True


def ekf_filter_check(case, mod, x, P, gains=None):
    """Every step of a recorded EKF run, from the recorded previous estimate."""
    n_ok = 0
    px, pP = mod.x0, mod.P0
    for k in range(mod.T):
        u = np.full(np.shape(mod.Z[k]), np.nan) if mod.U is None else mod.U[k]
        J = mod.jac_a(px, u)
        xp = np.asarray(mod.f(px, u), float)
        Pp = ref.sym(ld(J) @ ref.sym(ld(pP)) @ ld(J).T + ld(mod.Q[k]))
        raw = [ref.spread64(s, np.asarray(J, float), np.asarray(pP, float), mod.Q[k]) for s in ("inv", "flat")]
        H = np.asarray(mod.jac_h(xp), float)
        y = mod.Z[k] - np.atleast_1d(mod.h(xp))
        if not np.isfinite(xp).all():
            raise Skip("diverged")
        n_ok += bool(step_check(case, f"EKF step {k}", xp, Pp, H, mod.R[k], y, x[k], P[k],
                                None if gains is None else gains[k], raw))
        px, pP = x[k], P[k]
        if not (np.isfinite(px).all() and np.isfinite(pP).all()):
            raise Skip("diverged")
    if not n_ok:
        raise Skip("no step decidable")
    return n_ok


def ekf64(mod, rng=None, style="doc", smooth=False):
    """The documented extended recursion in float64 (own code), optionally perturbed by ulps."""
    def w(a):
        return a if rng is None else a * (1 + 2.5e-16 * rng.standard_normal(np.shape(a)))
    T, n = mod.T, mod.n
    r = ref.Result()
    r.x, r.P = np.zeros((T, n)), np.zeros((T, n, n))
    r.xp, r.Pp, r.K, r.J = r.x.copy(), r.P.copy(), np.zeros((T, n, mod.m)), r.P.copy()
    x, P = w(np.asarray(mod.x0, float)), w(mod.P0)
    us = [np.full(np.shape(mod.Z[k]), np.nan) if mod.U is None else mod.U[k] for k in range(T)]
    try:
        for k in range(T):
            J = w(np.asarray(mod.jac_a(x, us[k]), float))
            xp = w(np.asarray(mod.f(x, us[k]), float))
            Pp = ref.spread64(style, J, P, w(mod.Q[k]))
            H = w(np.asarray(mod.jac_h(xp), float))
            K, P = ref.correct64(style, Pp, H, w(mod.R[k]))
            x = w(xp + K @ (w(mod.Z[k]) - np.atleast_1d(w(mod.h(xp)))))
            P = w(P)
            r.x[k], r.P[k], r.xp[k], r.Pp[k], r.K[k], r.J[k] = x, P, xp, Pp, K, J
        if smooth:
            r.xs, r.Ps = r.x.copy(), r.P.copy()
            for k in range(T - 2, -1, -1):
                J = w(np.asarray(mod.jac_a(r.x[k], us[k + 1]), float))
                xp = w(np.asarray(mod.f(r.x[k], us[k + 1]), float))
                pp = ref.spread64(style, J, r.P[k], w(mod.Q[k + 1]))
                G = ref.back64(style, r.P[k], J, pp)
                r.xs[k] = r.x[k] + G @ (r.xs[k + 1] - xp)
                r.Ps[k] = r.P[k] + G @ ((r.Ps[k + 1] - pp) @ G.T)
    except np.linalg.LinAlgError:
        raise Skip("float64 reference singular") from None
    return r


def ekf_bands(mod, smooth=False):
    """Own extended run r and tolerances; chaotic steps get wide (undecided) ones."""
    rng = np.random.default_rng(4242)
    r = ekf64(mod, smooth=smooth)
    if not (np.isfinite(r.x).all() and np.isfinite(r.P).all()):
        raise Skip("diverged")
    b = ref.bands(mod, r, smooth, [ekf64(mod, rng, "doc", smooth), ekf64(mod, rng, "doc", smooth)] + [
        ekf64(mod, None, s, smooth) for s in ref.STYLES])
    # a chaotic run stays chaotic: never decide after the envelope opened
    b.tx, b.tP = np.maximum.accumulate(b.tx), np.maximum.accumulate(b.tP)
    b.horizon = int(np.argmax(np.append((b.tx > 1e-6) | (b.tP > 1e-6), True)))
    return r, b


def tame(case, mod, limit=1e-6):
    """mod cut before rounding differences get amplified."""
    r, b = ekf_bands(mod)
    if b.horizon == 0:
        raise Skip("chaotic from the first step")
    if b.horizon < mod.T:
        case.count("chaotic_tails_cut")
        mod = mod.cut(0, b.horizon)
        r, b = ekf_bands(mod)
    return mod, r, b


def ekf_smooth_check(case, mod, fx, fP, xs, Ps, wide=1e-13):
    """Every backward step of a recorded EKF smoother run.

    wide: how far the smoother's own filter pass may lie from (fx, fP) by rounding.
    """
    T, n = mod.T, mod.n
    sc = np.abs(fx[-1]) + np.sqrt(np.maximum(np.diag(fP[-1]), 0)) + 1e-300
    case.close("last smoothed mean is the filtered one", xs[-1], fx[-1], 1e-11 + 10 * wide, sc)
    d = np.sqrt(np.maximum(np.diag(fP[-1]), 1e-300))
    case.close("last smoothed covariance is the filtered one", Ps[-1], fP[-1], 1e-9 + 10 * wide, np.outer(d, d))
    n_ok = 0
    rng = np.random.default_rng(5)
    for k in range(T - 2, -1, -1):
        u = np.full(np.shape(mod.Z[k + 1]), np.nan) if mod.U is None else mod.U[k + 1]
        J = np.asarray(mod.jac_a(fx[k], u), float)
        xp = np.asarray(mod.f(fx[k], u), float)
        Pp = ref.sym(ld(J) @ ref.sym(ld(fP[k])) @ ld(J).T + ld(mod.Q[k + 1]))
        try:
            rx, rP = ref.rts_step(fx[k], fP[k], J, xp, Pp, xs[k + 1], ref.sym(ld(Ps[k + 1])))
        except Skip:
            case.count("steps_undecided")
            continue
        sd = np.sqrt(np.maximum(np.diag(fP[k]), 1e-300))
        sx = np.abs(fx[k]) + sd + np.abs(rx).astype(float)
        dd = np.maximum(np.sqrt(np.maximum(np.diag(rP), 0)).astype(float), 1e-5 * sd)
        ex = eP = 0.0
        ulp = max(2.5e-16, wide / 100)
        for style in ("doc", "doc", "inv", "right", "flat"):
            def w(a):
                return a * (1 + ulp * rng.standard_normal(np.shape(a)))
            p, j = w(fP[k]), w(J)
            pp = ref.spread64(style, j, p, w(mod.Q[k + 1]))
            try:
                G = ref.back64(style, p, j, pp)
            except np.linalg.LinAlgError:
                ex = np.inf
                break
            ex = max(ex, float(np.max(np.abs(w(fx[k]) + G @ (w(xs[k + 1]) - w(xp)) - rx) / sx)))
            eP = max(eP, float(np.max(np.abs(p + G @ ((w(Ps[k + 1]) - pp) @ G.T) - rP) / np.outer(dd, dd))))
        tx, tP = ref.FLOOR + ref.FACTOR * ex, ref.FLOOR + ref.FACTOR * eP
        if not (tx < MAX_TOL and tP < MAX_TOL):
            case.count("steps_undecided")
            continue
        n_ok += 1
        case.count("steps_decided")
        case.close(f"EKF smoother step {k} mean", xs[k], rx, tx, sx)
        case.close(f"EKF smoother step {k} covariance", Ps[k], rP, tP, np.outer(dd, dd))
    return n_ok


ASSUME = [
    "held on the executions produced, not proved for all inputs",
    "oracle arithmetic: x86 80-bit long double, cross-checked between independent oracles",
    "steps whose measured rounding envelope exceeds 5% of scale are not decided",
]
