"""C12: a change of state, observation or control coordinates changes the results accordingly."""

import numpy as np

from kk import gen, ref
from kk.common import (ASSUME, MAX_TOL, Skip, ekf_bands, gain_scale, gain_tol, run_ekf, run_kf, steps, tame)
from kk.ref import LD, ld

PROP = "C12"
RULE = ("random linear and nonlinear models re-expressed by permutations, sign flips, power-of-two units up to 2^40, "
        "unimodular, orthogonal and general bases of states, observations and controls; both runs of the real code "
        "compared; non-trivial = transformation not the identity and some step decided; distinct by input digest")
ASSUMPTIONS = ASSUME


def basis(rng, n, kind=None):
    """Invertible M and its inverse (exact in floating point except for dense kinds)."""
    kind = kind or gen.pick(rng, "perm", "flip", "units", "units", "unimodular", "orth", "dense")
    if kind == "perm":
        M = np.eye(n)[rng.permutation(n)]
        return M, M.T.copy(), kind
    if kind == "flip":
        M = np.diag(rng.choice([-1.0, 1.0], n))[rng.permutation(n)]
        return M, M.T.copy(), kind
    if kind == "units":
        d = 2.0 ** rng.integers(-40, 41, n) if rng.random() < 0.5 else np.full(n, 2.0 ** int(rng.integers(-60, 61)))
        return np.diag(d), np.diag(1 / d), kind
    if kind == "unimodular":
        L = np.tril(rng.integers(-1, 2, (n, n)), -1) + np.eye(n)
        Li = np.round(np.linalg.inv(L))
        p = rng.permutation(n)
        return L[p], Li[:, p], kind
    if kind == "orth":
        M = gen.orth(rng, n)
        return M, M.T.copy(), kind
    M = gen.orth(rng, n) @ np.diag(10.0 ** rng.uniform(-1.5, 1.5, n)) @ gen.orth(rng, n)
    return M, np.asarray(inverse(M), float), kind


def inverse(M):
    """Inverse refined in extended precision."""
    X = ld(np.linalg.inv(M))
    for _ in range(3):
        X = X @ (2 * np.eye(len(M), dtype=LD) - ld(M) @ X)
    return X


def transform(mod, M, Mi, N, C):
    """mod in coordinates x' = M x, z' = N z, u' = C u."""
    f = lambda a: a.astype(float)
    M, Mi, N, C = map(ld, (M, Mi, N, C))
    kw = dict(A=f(M @ ld(mod.A) @ Mi), H=f(N @ ld(mod.H) @ Mi), Q=f(M @ ld(mod.Q) @ M.T), R=f(N @ ld(mod.R) @ N.T),
              x0=f(M @ ld(mod.x0)), P0=f(M @ ld(mod.P0) @ M.T), Z=f(ld(mod.Z) @ N.T))
    if mod.B is not None:
        kw["B"] = f(M @ ld(mod.B) @ inverse(f(C)))
    if mod.U is not None:
        kw["U"] = f(ld(mod.U) @ C.T)
    for k in "QR":
        kw[k] = (kw[k] + kw[k].transpose(0, 2, 1)) / 2
    kw["P0"] = (kw["P0"] + kw["P0"].T) / 2
    return mod.but(**kw)


def linear(case, smooth, **kw):
    rng = case.rng
    mod = gen.linear(case, smooth=smooth, scaled=rng.random() < .2, **kw)
    n, m = mod.n, mod.m
    p = mod.U.shape[1] if mod.U is not None else (mod.B.shape[2] if mod.B is not None else 1)
    which = rng.random(3) < 0.6
    if not which.any():
        which[0] = True
    I = np.eye
    M, Mi, km = basis(rng, n) if which[0] else (I(n), I(n), "same")
    N, _, kn = basis(rng, m) if which[1] else (I(m), I(m), "same")
    C, _, kc = basis(rng, p) if which[2] else (I(p), I(p), "same")
    case.tag(f"states:{km}", f"observations:{kn}", f"controls:{kc}")
    case.desc["bases"] = [km, kn, kc]
    case.seen(M, N, C)
    tr = transform(mod, M, Mi, N, C)
    call = "smooth" if smooth else "filter"
    r, q = ref.recursive(mod, smooth), ref.recursive(tr, smooth)
    b, c = ref.bands(mod, r, smooth), ref.bands(tr, q, smooth)
    ref.require(b)
    ref.require(c)
    x, P, kf = run_kf(case, mod, call=call)
    y, S, kg = run_kf(case, tr, call=call)
    compare(case, call, x, P, y, S, r, q, b, c, M, smooth)
    # gains: K' = M K N^-1
    Ni = np.asarray(inverse(N), float)
    sa, sb = gain_scale(mod, r), gain_scale(tr, q)
    ta, tb = gain_tol(mod, r, sa), gain_tol(tr, q, sb)
    case.check(len(kf.kalman_gains) == len(kg.kalman_gains), "number of gains depends on coordinates")
    for k in range(mod.T):
        if max(ta[k], tb[k]) < MAX_TOL:
            want = M @ kf.kalman_gains[k] @ Ni
            disc = np.abs(ld(M) @ r.K[k] @ ld(Ni) - q.K[k]).astype(float)
            tol = sb[k] * tb[k] + np.abs(M) @ (sa[k] * ta[k]) @ np.abs(Ni) + 100 * disc
            if np.all(tol <= MAX_TOL * np.maximum(sb[k], np.abs(want))):
                case.close(f"{call}: gain {k} in other coordinates", kg.kalman_gains[k], want, tol, 1.0)
                case.count("gains_compared")
    case.nontrivial = any(k != "same" for k in (km, kn, kc)) and bool(np.any(mod.H))


def compare(case, call, x, P, y, S, r, q, b, c, M, smooth, what="", disc=None):
    rx, rP, qx, qP = (r.xs, r.Ps, q.xs, q.Ps) if smooth else (r.x, r.P, q.x, q.P)
    bx, bP, btx, btP = (b.ssx, b.ssP, b.stx, b.stP) if smooth else (b.sx, b.sP, b.tx, b.tP)
    cx, cP, ctx, ctP = (c.ssx, c.ssP, c.stx, c.stP) if smooth else (c.sx, c.sP, c.tx, c.tP)
    aM = np.abs(M)
    n_ok = 0
    for k in range(len(x)):
        if not max(btx[k], btP[k], ctx[k], ctP[k]) < MAX_TOL:
            case.count("steps_undecided")
            continue
        # rounding of the transformed model itself, measured with the reference recursions
        dx = np.abs(ld(M) @ ld(rx[k]) - ld(qx[k])).astype(float)
        dP = np.abs(ld(M) @ ld(rP[k]) @ ld(M).T - ld(qP[k])).astype(float)
        tx = cx[k] * ctx[k] + aM @ (bx[k] * btx[k]) + 100 * dx
        tP = cP[k] * ctP[k] + aM @ (bP[k] * btP[k]) @ aM.T + 100 * dP
        if np.any(tx > MAX_TOL * cx[k]) or np.any(tP > MAX_TOL * cP[k]):
            case.count("steps_undecided")
            continue
        case.close(f"{what}{call} mean {k} in other coordinates", y[k], M @ x[k], tx, 1.0)
        case.close(f"{what}{call} covariance {k} in other coordinates", S[k], M @ P[k] @ M.T, tP, 1.0)
        n_ok += 1
    case.count("steps_decided", n_ok)
    if not n_ok:
        raise Skip("no step decidable")


def filt(case):
    linear(case, False)


def smooth(case):
    linear(case, True)


def extended(case):
    """Nonlinear models conjugated by linear changes of state and observation coordinates."""
    rng = case.rng
    smooth_ = rng.random() < 0.4
    mod = gen.nonlinear(case, smooth=smooth_)
    mod, _, _ = tame(case, mod)
    n, m = mod.n, mod.m
    M, Mi, km = basis(rng, n, gen.pick(rng, "perm", "flip", "units", "units", "unimodular", "orth"))
    N, Ni, kn = basis(rng, m, gen.pick(rng, "perm", "flip", "units", "orth"))
    if rng.random() < .3:
        N, kn = np.eye(m), "same"
    case.tag(f"EKF states:{km}", f"EKF observations:{kn}")
    case.desc["bases"] = [km, kn]
    case.seen(M, N)

    def f(x, u, /):
        return M @ mod.f(Mi @ x, u)

    def jac_a(x, u, /):
        return M @ mod.jac_a(Mi @ x, u) @ Mi

    def h(x, /):
        return N @ np.atleast_1d(mod.h(Mi @ x))

    def jac_h(x, /):
        return N @ mod.jac_h(Mi @ x) @ Mi

    s = lambda a: (a + np.swapaxes(a, -1, -2)) / 2
    tr = mod.but(f=f, h=h, jac_a=jac_a, jac_h=jac_h, Q=s(M @ mod.Q @ M.T), R=s(N @ mod.R @ N.T), x0=M @ mod.x0,
                 P0=s(M @ mod.P0 @ M.T), Z=mod.Z @ N.T, scalar_h=False)
    r, b = ekf_bands(mod, smooth_)
    q, c = ekf_bands(tr, smooth_)
    call = "smooth" if smooth_ else "filter"
    x, P, _ = run_ekf(case, mod, call=call)
    y, S, _ = run_ekf(case, tr, call=call)
    compare(case, call, x, P, y, S, r, q, b, c, M, smooth_, "EKF ")
    case.nontrivial = not (km == "perm" and np.array_equal(M, np.eye(n)) and kn == "same")


def deep(case):
    linear(case, bool(case.index % 2), T=gen.deep_length(case), **gen.deep_dims(case.rng))


def wide(case):
    linear(case, bool(case.index % 2), T=int(case.rng.integers(2, 5)), n=int(case.rng.integers(8, 16)),
           m=int(case.rng.integers(1, 16)))


def long(case):
    rng = case.rng
    mod = gen.linear(case, T=int(gen.pick(rng, 80, 200)), big=False, stable=True, scaled=False)
    M, Mi, km = basis(rng, mod.n, gen.pick(rng, "perm", "units"))
    N, Ni, kn = basis(rng, mod.m, gen.pick(rng, "perm", "units"))
    p = 1 if mod.U is None and mod.B is None else (mod.U.shape[1] if mod.U is not None else mod.B.shape[2])
    tr = transform(mod, M, Mi, N, np.eye(p))
    r, q = ref.recursive(mod), ref.recursive(tr)
    b, c = ref.bands(mod, r), ref.bands(tr, q)
    ref.require(b)
    ref.require(c)
    x, P, _ = run_kf(case, mod)
    y, S, _ = run_kf(case, tr)
    compare(case, "filter", x, P, y, S, r, q, b, c, M, False, "long ")
    case.nontrivial = True


def astronomical(case):
    """Units hundreds of orders of magnitude away: powers of two, which round nothing by themselves."""
    rng = case.rng
    smooth_ = bool(rng.integers(2))
    call = "smooth" if smooth_ else "filter"
    linear_ = rng.random() < .6
    a, b, c = (int(v) for v in rng.integers(-200, 201, 3))
    if rng.random() < .3:
        a, b = 0, int(rng.integers(-440, 441))
    elif rng.random() < .3:
        b = 0
    X, Y, W = 2.0**a, 2.0**b, 2.0**c
    if linear_:
        mod = gen.linear(case, smooth=smooth_, scaled=False)
        r = ref.recursive(mod, smooth_)
        bd = ref.bands(mod, r, smooth_)
        ref.require(bd)
        tr = mod.but(B=None if mod.B is None else mod.B * (X / W), U=None if mod.U is None else mod.U * W, H=mod.H * (Y / X),
                     Q=mod.Q * X * X, R=mod.R * Y * Y, x0=mod.x0 * X, P0=mod.P0 * X * X, Z=mod.Z * Y)
        run = run_kf
    else:
        mod, _, _ = tame(case, gen.nonlinear(case, smooth=smooth_))
        r, bd = ekf_bands(mod, smooth_)
        tr = mod.but(f=lambda x, u, /: X * mod.f(x / X, u), jac_a=lambda x, u, /: mod.jac_a(x / X, u),
                     h=lambda x, /: Y * mod.h(x / X), jac_h=lambda x, /: mod.jac_h(x / X) * (Y / X), Q=mod.Q * X * X,
                     R=mod.R * Y * Y, x0=mod.x0 * X, P0=mod.P0 * X * X, Z=mod.Z * Y)
        run = run_ekf
    s, t, sP, tP = (bd.ssx, bd.stx, bd.ssP, bd.stP) if smooth_ else (bd.sx, bd.tx, bd.sP, bd.tP)
    if not max(np.max(s), np.max(sP)) < 1e40:
        raise Skip("estimates too large to scale")
    case.seen(a, b, c)
    case.desc["exponents"] = [a, b, c]
    case.tag(f"units 2^{a // 100 * 100}.. 2^{b // 100 * 100}..")
    x, P, kf = run(case, mod, call=call)
    y, S, kg = run(case, tr, call=call)
    ok = steps(t) & steps(tP)
    case.close(f"{call} mean in units of 2^{a} 2^{b}", y[ok] / X, x[ok], 2 * t[ok][:, None], s[ok])
    case.close(f"{call} covariance in units of 2^{a} 2^{b}", S[ok] / X / X, P[ok], 2 * tP[ok][:, None, None], sP[ok])
    case.check(len(kf.kalman_gains) == len(kg.kalman_gains), "number of gains depends on units")
    if linear_:
        sc = gain_scale(mod, r)
        gt = gain_tol(mod, r, sc)
        for k in np.flatnonzero(gt < MAX_TOL):
            case.close(f"{call}: gain {k} in units of 2^{a} 2^{b}", kg.kalman_gains[k] / X * Y, kf.kalman_gains[k], 2 * gt[k], sc[k])
            case.count("gains_compared")
    case.count("steps_decided", int(ok.sum()))
    case.nontrivial = bool(ok.any())


FAMILIES = {
    "astronomical": (200, 3000, astronomical),
    "filter": (350, 6000, filt),
    "smooth": (350, 6000, smooth),
    "extended": (300, 4000, extended),
    "long": (16, 300, long),
    "wide": (40, 500, wide),
    "deep": (4, 48, deep),
}
