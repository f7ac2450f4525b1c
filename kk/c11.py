"""C11: covariances and gains ignore the data, estimates are affine in it."""

import numpy as np

from kk import gen, ref
from kk.common import ASSUME, KF, MAX_TOL, Skip, gain_scale, gain_tol, run_ekf, run_kf, steps

PROP = "C11"
RULE = ("random linear models run with several data sets (observations up to 1e12, zero, constant, outliers, other "
        "controls and initial means): covariances and gains compared across data, states compared with the affine "
        "combination; non-trivial = H not zero and data sets differ; distinct by input digest")
ASSUMPTIONS = ASSUME


def other(rng, mod, kind):
    """Another data set of the same model with controls missing at the same steps."""
    Z = mod.Z
    zs = np.maximum(np.max(np.abs(Z), axis=0), np.sqrt(np.einsum("kii->ki", mod.R)).max(axis=0))
    if kind == "zero":
        Z = np.zeros_like(Z)
    elif kind == "huge":
        Z = rng.standard_normal(Z.shape) * zs * 10.0 ** rng.uniform(4, 12)
    elif kind == "outlier":
        Z = Z.copy()
        Z[int(rng.integers(len(Z)))] += zs * 10.0 ** rng.uniform(2, 10)
    elif kind == "const":
        Z = np.tile(zs * rng.standard_normal(mod.m), (mod.T, 1))
    elif kind == "same":
        Z = Z + zs * 1e-3 * rng.standard_normal(Z.shape)
    else:
        Z = rng.standard_normal(Z.shape) * zs * 3
    U = mod.U
    if U is not None:
        us = np.nanmax(np.abs(U)) if np.isfinite(U).any() else 1.0
        U = np.where(np.isnan(U), np.nan, rng.standard_normal(U.shape) * (us or 1.0) * 10.0 ** rng.uniform(-1, 4))
        if kind == "zero":
            U = np.where(np.isnan(U), np.nan, 0.0)
    sd = np.sqrt(np.maximum(np.diag(mod.P0), 0))
    x0 = mod.x0 * rng.uniform(-2, 2) + (sd + np.abs(mod.x0)) * rng.standard_normal(mod.n) * 10.0 ** rng.uniform(-1, 4)
    return mod.but(Z=Z, U=U, x0=x0)


KINDS = ["zero", "huge", "outlier", "const", "same", "rand", "rand"]


def runs(case, smooth, **kw):
    rng = case.rng
    mod = gen.linear(case, smooth=smooth, **kw)
    r = ref.recursive(mod, smooth)
    bd = ref.bands(mod, r, smooth)
    ref.require(bd)
    call = "smooth" if smooth else "filter"
    f = gen.form(case, mod)
    out = [(mod, r, bd) + run_kf(case, mod, f, call=call)]
    for _ in range(int(rng.integers(1, 3))):
        kind = gen.pick(rng, *KINDS)
        case.tag("data:" + kind)
        m2 = other(rng, mod, kind)
        case.seen(m2.Z, m2.U, m2.x0)
        r2 = ref.recursive(m2, smooth)
        out.append((m2, r2, ref.bands(m2, r2, smooth)) + run_kf(case, m2, f, call=call))
        case.count("data_sets")
    return mod, out


def data_free(case, mod, out, smooth):
    """Covariances and gains are the same for every data set."""
    m0, r0, b0, x0, P0, k0 = out[0]
    sP, tP = (b0.ssP, b0.stP) if smooth else (b0.sP, b0.tP)
    ok = steps(tP)
    sc = gain_scale(mod, r0)
    gt = gain_tol(mod, r0, sc)
    for m2, r2, b2, x, P, kf in out[1:]:
        case.close("covariances with other data", P[ok], P0[ok], 2 * tP[ok][:, None, None], sP[ok])
        case.check(len(kf.kalman_gains) == len(k0.kalman_gains), "number of gains depends on the data")
        for k in np.flatnonzero(gt < MAX_TOL):
            case.close(f"gain {k} with other data", kf.kalman_gains[k], k0.kalman_gains[k], 2 * gt[k], sc[k])
        case.count("data_swaps")


def affine(case, mod, out, smooth):
    """A weighted combination of inputs yields the same combination of outputs."""
    rng = case.rng
    w = rng.uniform(-3, 3, len(out) - 1)
    if rng.random() < 0.3:
        w = rng.integers(-2, 3, len(out) - 1).astype(float)
    if not w.any():
        w[0] = 2.0
    w = np.concatenate([[1 - w.sum()], w])
    comb = mod.but(Z=sum(a * o[0].Z for a, o in zip(w, out)), x0=sum(a * o[0].x0 for a, o in zip(w, out)),
                   U=None if mod.U is None else sum(a * o[0].U for a, o in zip(w, out)))
    rc = ref.recursive(comb, smooth)
    bc = ref.bands(comb, rc, smooth)
    call = "smooth" if smooth else "filter"
    x, P, _ = run_kf(case, comb, call=call)
    tol = np.zeros_like(x)
    want = np.zeros_like(x)
    ok = np.ones(mod.T, bool)
    for a, o in zip(w, out):
        b = o[2]
        s, t = (b.ssx, b.stx) if smooth else (b.sx, b.tx)
        tol += abs(a) * s * t[:, None]
        want += a * o[3]
        ok &= steps(t)
        # rounding of the combined inputs themselves
        tol += abs(a) * 1e-12 * reach(o, smooth)
    s, t = (bc.ssx, bc.stx) if smooth else (bc.sx, bc.tx)
    tol += s * t[:, None]
    ok &= steps(t)
    if not ok.any():
        raise Skip("no step decidable")
    tol = np.maximum(tol, 1e-300)
    case.close(f"{call} states of a weighted combination of data", x[ok], want[ok], tol[ok], 1.0)
    case.count("steps_decided", int(ok.sum()))
    case.count("combinations")


def reach(o, smooth):
    """How far the inputs of a run can move each state entry (bound on |weights| |data|)."""
    b = o[2]
    s = b.ssx if smooth else b.sx
    return np.maximum.accumulate(s) if not smooth else np.max(s, axis=0)[None]


def both(case, smooth, **kw):
    mod, out = runs(case, smooth, **kw)
    data_free(case, mod, out, smooth)
    affine(case, mod, out, smooth)
    case.nontrivial = bool(np.any(mod.H))


def filt(case):
    both(case, False)


def smooth(case):
    both(case, True)


def deep(case):
    both(case, bool(case.index % 2), T=gen.deep_length(case), **gen.deep_dims(case.rng))


def wide(case):
    both(case, bool(case.index % 2), T=int(case.rng.integers(2, 5)), n=int(case.rng.integers(8, 18)),
         m=int(case.rng.integers(1, 18)))


def absent(case):
    """Covariances do not depend on whether there is a control at all."""
    mod = gen.linear(case, control="both", smooth=True)
    r = ref.recursive(mod, True)
    bd = ref.bands(mod, r, True)
    ref.require(bd)
    for call, s, t in (("filter", bd.sP, bd.tP), ("smooth", bd.ssP, bd.stP)):
        a = run_kf(case, mod, call=call)[1]
        ok = steps(t)
        for m2 in (mod.but(B=None, U=None), mod.but(U=None), mod.but(B=None), mod.but(U=mod.U * 1e6)):
            b = run_kf(case, m2, call=call)[1]
            case.close(f"{call} covariances with other controls", b[ok], a[ok], 2 * t[ok][:, None, None], s[ok])
            case.count("data_swaps")
    case.nontrivial = bool(np.any(mod.H))


def scaled(case):
    """Data in astronomically large or small units (powers of two, which round nothing)."""
    rng = case.rng
    smooth = bool(rng.integers(2))
    call = "smooth" if smooth else "filter"
    mod = gen.linear(case, smooth=smooth)
    r = ref.recursive(mod, smooth)
    bd = ref.bands(mod, r, smooth)
    ref.require(bd)
    s, t, sP, tP = (bd.ssx, bd.stx, bd.ssP, bd.stP) if smooth else (bd.sx, bd.tx, bd.sP, bd.tP)
    if not np.max(s) < 1e60:
        raise Skip("estimates too large to scale")
    e = int(gen.pick(rng, -1, 1)) * int(rng.integers(120, 750))
    up = lambda a: None if a is None else np.ldexp(a, e)  # noqa: E731
    m2 = mod.but(x0=up(mod.x0), Z=up(mod.Z), U=up(mod.U))
    case.seen(e)
    case.desc["exponent"] = e
    case.tag(f"scale 2^{e // 250 * 250}..")
    x, P, kf = run_kf(case, mod, call=call)
    xs, Ps, kfs = run_kf(case, m2, call=call)
    ok, okP = steps(t), steps(tP)
    case.close(f"{call} states of the data times 2^{e}", np.ldexp(xs[ok], -e), x[ok], 2 * t[ok][:, None], s[ok])
    case.close(f"{call} covariances of the data times 2^{e}", Ps[okP], P[okP], 2 * tP[okP][:, None, None], sP[okP])
    case.check(len(kf.kalman_gains) == len(kfs.kalman_gains), "number of gains depends on the data")
    lin = mod.but(H=np.array([mod.H[0]] * mod.T))
    if np.array_equal(lin.H, mod.H):  # the extended filter with the linear model as functions
        a, b = gen.as_nonlinear(lin), gen.as_nonlinear(m2)
        xe, _, _ = run_ekf(case, a, call=call)
        xf, _, _ = run_ekf(case, b, call=call)
        case.close(f"EKF {call} states of the data times 2^{e}", np.ldexp(xf[ok], -e), xe[ok], 2 * t[ok][:, None], s[ok])
        case.count("extended_filter_runs")
    case.nontrivial = bool(np.any(mod.H)) and bool(np.any(x[ok]))


FAMILIES = {
    "scaled": (200, 4000, scaled),
    "filter": (450, 8000, filt),
    "smooth": (350, 6000, smooth),
    "absent": (150, 2000, absent),
    "wide": (40, 500, wide),
    "deep": (6, 48, deep),
}
