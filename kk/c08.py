"""C08: validity and information monotonicity of every returned covariance."""

import numpy as np

from kk import gen, ref
from kk.common import ASSUME, MAX_TOL, Skip, Violation, run_ekf, run_kf, tame, ekf_bands
from kk.ref import ld, sym

PROP = "C08"
RULE = ("random linear and nonlinear models (all time patterns, units, singular covariances, near-noise-free and "
        "diffuse cases); every returned covariance is normalised by its natural units and checked for symmetry, "
        "definiteness and Loewner order against its predicted/filtered/less informed counterpart; non-trivial = "
        "at least one decided step with a non-zero observation matrix; distinct by input digest")
ASSUMPTIONS = ASSUME


def unit(sP):
    d = np.sqrt(np.einsum("kii->ki", sP))
    return d


def low(M, d):
    """Smallest eigenvalue of M in units d."""
    N = (M / np.outer(d, d)).astype(float)
    return float(np.linalg.eigvalsh((N + N.T) / 2)[0])


class Judge:
    """Order comparisons with per-step tolerance."""

    def __init__(self, case):
        self.case, self.n = case, 0

    def valid(self, what, P, d, tol):
        case = self.case
        for k in range(len(P)):
            if not tol[k] < MAX_TOL:
                case.count("steps_undecided")
                continue
            case.count("covariances_checked")
            self.n += 1
            N = P[k] / np.outer(d[k], d[k])
            case.check(bool(np.isfinite(N).all()), f"{what} covariance {k} is not finite")
            a = float(np.max(np.abs(N - N.T)))
            case.margin = max(case.margin, a / tol[k])
            case.check(a <= tol[k], f"{what} covariance {k} not symmetric: {a:.3g} of its units (tol {tol[k]:.3g})")
            e = low(P[k], d[k])
            case.margin = max(case.margin, -e / (tol[k] * len(N)))
            case.check(e >= -tol[k] * len(N),
                       f"{what} covariance {k} not positive semidefinite: eigenvalue {e:.3g} of its units")

    def below(self, what, small, big, d, tol):
        """small <= big in the semidefinite order."""
        case = self.case
        for k in range(len(small)):
            if not tol[k] < MAX_TOL:
                continue
            e = low(ld(big[k]) - ld(small[k]), d[k])
            case.count("order_checks")
            case.margin = max(case.margin, -e / (tol[k] * len(d[k])))
            case.check(e >= -tol[k] * len(d[k]), f"{what} at step {k}: difference has eigenvalue {e:.3g} of its units")


def predicted(mod, P):
    """Predicted covariances from the recorded filtered ones."""
    out = []
    for k in range(mod.T):
        p = mod.P0 if k == 0 else P[k - 1]
        out.append(sym(ld(mod.A[k]) @ sym(ld(p)) @ ld(mod.A[k]).T + ld(mod.Q[k])))
    return np.array(out)


def add_psd(rng, S, scale):
    n = S.shape[-1]
    if rng.random() < 0.3:
        v = rng.standard_normal((n, 1)) * np.sqrt(scale)
        return S + v @ v.T
    return S + gen.spd(rng, n) * scale


def natural(S):
    d = np.sqrt(np.maximum(np.diag(S), 0))
    top = d.max()
    return np.where(d > 0, d, top if top > 0 else 1.0)


def bigger(rng, S):
    """A covariance larger than S, in S's own units."""
    d = natural(S)
    N = np.eye(len(d)) * 0
    N = add_psd(rng, N, 10.0 ** rng.uniform(-2, 2))
    return S + N * np.outer(d, d)


def filt(case, mod=None):
    rng = case.rng
    mod = mod or gen.linear(case)
    r = ref.recursive(mod)
    bd = ref.bands(mod, r)
    ref.require(bd)
    x, P, _ = run_kf(case, mod, gen.form(case, mod))
    j = Judge(case)
    d = unit(bd.sP)
    j.valid("filtered", P, d, bd.tP)
    Pp = predicted(mod, P)
    dp = np.maximum(np.sqrt(np.maximum(np.einsum("kii->ki", Pp), 0)).astype(float), d)
    j.below("filtered covariance exceeds predicted one", P, Pp, dp, bd.tP)
    # more measurement noise
    R2 = mod.R.copy()
    steps = rng.random(mod.T) < gen.pick(rng, 0.3, 1.0)
    for k in np.flatnonzero(steps):
        R2[k] = bigger(rng, mod.R[k])
    more(case, j, mod, mod.but(R=R2), P, bd, "larger measurement noise gave a smaller covariance")
    P2 = bigger(rng, mod.P0 if mod.P0.any() else np.eye(mod.n))
    if not mod.P0.any():
        P2 = add_psd(rng, mod.P0, 1.0)
    more(case, j, mod, mod.but(P0=P2), P, bd, "larger initial covariance gave a smaller covariance")
    case.nontrivial = j.n > 0 and bool(np.any(mod.H))


def more(case, j, mod, worse, P, bd, what):
    r2 = ref.recursive(worse)
    b2 = ref.bands(worse, r2)
    if not (b2.median < 1e-4 and b2.cond < 1e12):
        case.count("steps_undecided", mod.T)
        return
    _, C, _ = run_kf(case, worse)
    d = np.maximum(unit(b2.sP), unit(bd.sP))
    j.below(what, P, C, d, b2.tP + bd.tP)


def smooth(case):
    mod = gen.linear(case, smooth=True)
    r = ref.recursive(mod, True)
    bd = ref.bands(mod, r, True)
    ref.require(bd)
    f = gen.form(case, mod)
    _, P, _ = run_kf(case, mod, f)
    _, Ps, _ = run_kf(case, mod, f, call="smooth")
    j = Judge(case)
    j.valid("smoothed", Ps, unit(bd.ssP), bd.stP)
    d = np.maximum(unit(bd.sP), unit(bd.ssP))
    j.below("smoothed covariance exceeds filtered one", Ps, P, d, bd.tP + bd.stP)
    case.nontrivial = j.n > 0 and bool(np.any(mod.H))


def hard(case):
    """Near-noise-free, diffuse and strongly correlated models."""
    rng = case.rng
    mod = gen.linear(case, smooth=False, scaled=False)
    w = gen.pick(rng, "tinyR", "diffuse", "both", "tinyQ", "spread R")
    case.tag("hard:" + w)
    case.desc["hard"] = w
    if w in ("tinyR", "both"):
        mod.R = mod.R * 10.0 ** rng.uniform(-8, -3)
    if w in ("diffuse", "both"):
        mod.P0 = np.eye(mod.n) * 10.0 ** rng.uniform(4, 7)
    if w == "tinyQ":
        mod.Q = mod.Q * 1e-10
    if w == "spread R":
        s = 10.0 ** rng.uniform(-4, 4, mod.m)
        mod.R = mod.R * np.outer(s, s)
    filt(case, mod)


def ekf(case):
    rng = case.rng
    smooth_ = rng.random() < 0.4
    mod = gen.nonlinear(case, smooth=smooth_)
    mod, r, b = tame(case, mod)
    f = gen.form(case, mod)
    f.x_col = False
    x, P, _ = run_ekf(case, mod, f)
    j = Judge(case)
    d = unit(b.sP)
    j.valid("EKF filtered", P, d, b.tP)
    us = [np.full(np.shape(mod.Z[k]), np.nan) if mod.U is None else mod.U[k] for k in range(mod.T)]
    Pp = []
    for k in range(mod.T):
        px, pP = (mod.x0, mod.P0) if k == 0 else (x[k - 1], P[k - 1])
        J = ld(mod.jac_a(np.asarray(px, float), us[k]))
        Pp.append(sym(J @ sym(ld(pP)) @ J.T + ld(mod.Q[k])))
    Pp = np.array(Pp)
    dp = np.maximum(np.sqrt(np.maximum(np.einsum("kii->ki", Pp), 0)).astype(float), d)
    j.below("EKF filtered covariance exceeds predicted one", P, Pp, dp, b.tP)
    if smooth_:
        r, b = ekf_bands(mod, True)
        _, Ps, _ = run_ekf(case, mod, f, call="smooth")
        j.valid("EKF smoothed", Ps, unit(b.ssP), b.stP)
    if not j.n:
        raise Skip("no step decidable")
    case.nontrivial = True


def long(case):
    mod = gen.linear(case, T=int(gen.pick(case.rng, 100, 250, 600)), big=False, stable=True)
    filt(case, mod)


FAMILIES = {
    "filter": (500, 9000, filt),
    "smooth": (500, 9000, smooth),
    "hard": (250, 4000, hard),
    "ekf": (400, 6000, ekf),
    "long": (12, 250, long),
}
