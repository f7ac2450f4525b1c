"""C18: joint, sequential and repeated measurement fusion."""

import numpy as np

from kk import gen, ref
from kk.common import ASSUME, EKF, KF, MAX_TOL, Skip, corrected, run_kf
from kk.ref import ld, sym

PROP = "C18"
RULE = ("random priors and blocks of independent measurements (1-5 blocks of 1-4 rows, mixed units, near-duplicate and "
        "zero rows) through update of both classes and through whole filter runs: joint against one by one in random "
        "orders, zero observation matrices, repetition against R/q, noise-free measurements; non-trivial = a non-zero "
        "observation row; distinct by input digest")
ASSUMPTIONS = ASSUME


def updater(case, kind, n, m):
    """update(H, x, P, z, R) of either class (linear observations)."""
    rng = case.rng
    if kind == "standard":
        kf = case.lib("KalmanFilter()", KF, A=np.eye(n)[None], xk=rng.standard_normal(n), B=None, Pk=np.eye(n),
                      H=np.ones((1, 1, n)), Q=np.eye(n)[None], R=np.ones((1, 1, 1)))
        return lambda H, x, P, z, R: corrected(case, H, P, R, "update", kf.update, H, x, P, z, R)

    def up(H, x, P, z, R, b=0.0):
        ekf = case.lib("ExtendedKalmanFilter()", EKF, xk=x, Pk=P, Q=np.eye(n)[None], R=R[None], f=lambda x, u: x,
                       h=lambda x: H @ x, jacobian_A=lambda x, u: np.eye(n), jacobian_H=lambda x: H)
        return corrected(case, H, P, R, "EKF update", ekf.update, x, P, z, R)
    return up


def problem(case, blocks=None, exact_units=True):
    rng = case.rng
    n = int(gen.pick(rng, 1, 2, 3, 4, 6, 8))
    x = rng.standard_normal(n) * gen.pick(rng, 1, 10)
    P = gen.spd(rng, n, kind=gen.pick(rng, None, None, "rank")) * 10.0 ** rng.uniform(-2, 3)
    B = []
    for _ in range(blocks or int(rng.integers(1, 6))):
        m = int(rng.integers(1, 5))
        H = gen.obs(rng, m, n)
        s = 10.0 ** rng.uniform(-2, 1.5)
        R = s * (gen.spd(rng, m) + 1e-2 * np.eye(m))
        z = H @ x + rng.standard_normal(m) * gen.pick(rng, 1, 1, 30)
        if rng.random() < .3:
            u = 2.0 ** rng.integers(-20, 21)
            H, R, z = H * u, R * u * u, z * u
        B.append((H, R, z))
    if rng.random() < 0.3:
        d = 2.0 ** rng.integers(-15, 16, n)
        x, P = x * d, P * np.outer(d, d)
        B = [(H / d, R, z) for H, R, z in B]
    case.seen(x, P, *[a for b in B for a in b])
    case.desc.update(n=n, blocks=[b[0].shape[0] for b in B])
    case.tag(f"n={n}", f"{len(B)} blocks")
    return n, x, P, B


def stack(B):
    H = np.concatenate([b[0] for b in B])
    z = np.concatenate([b[2] for b in B])
    R = np.zeros((len(H), len(H)))
    i = 0
    for b in B:
        m = len(b[0])
        R[i:i + m, i:i + m] = b[1]
        i += m
    return H, R, z


class Tol:
    """Natural units and measured rounding of one fusion problem."""

    def __init__(self, case, x, P, B):
        rng = np.random.default_rng(31)
        H, R, z = stack(B)
        rx, rP, _ = ref.update_ld(x, sym(ld(P)), H, R, ld(z) - ld(H) @ ld(x))
        sd = np.sqrt(np.maximum(np.diag(P), 0))
        sd = np.where(sd > 0, sd, max(sd.max(), 1e-300))
        self.x, self.P = rx, rP
        self.sx = np.abs(x) + np.abs(rx).astype(float) + sd
        d = np.maximum(np.sqrt(np.maximum(np.diag(rP), 0)).astype(float), 1e-5 * sd)
        self.sP = np.outer(d, d)
        ex = eP = 0.0
        orders = [B, [stack(B)], B[::-1]] + [[B[i] for i in rng.permutation(len(B))] for _ in range(3)]
        for style, seq in [(s, q) for s in ("doc", "doc", "inv") + ref.STYLES for q in orders]:
            def w(a):
                return a * (1 + 2.5e-16 * rng.standard_normal(np.shape(a)))
            cx, cP = w(x), w(P)
            for h, r, y in seq:
                h = w(h)
                G, nP = ref.correct64(style, cP, h, w(r))
                cx = w(cx + G @ (w(y) - h @ cx))
                cP = w(nP)
            ex = max(ex, float(np.max(np.abs(cx - rx) / self.sx)))
            eP = max(eP, float(np.max(np.abs(cP - rP) / self.sP)))
        self.tx, self.tP = ref.FLOOR + ref.FACTOR * ex, ref.FLOOR + ref.FACTOR * eP
        if not (self.tx < 1e-3 and self.tP < 1e-3):
            raise Skip("ill-conditioned fusion")

    def same(self, case, what, got, want=None):
        x, P = want if want is not None else (self.x, self.P)
        case.close(f"{what}: mean", np.asarray(got[0]), np.asarray(x), 2 * self.tx, self.sx)
        case.close(f"{what}: covariance", np.asarray(got[1]), np.asarray(P), 2 * self.tP, self.sP)


def fuse(case):
    """Joint against sequential in random orders, both classes."""
    rng = case.rng
    n, x, P, B = problem(case)
    t = Tol(case, x, P, B)
    kind = gen.pick(rng, "standard", "extended")
    case.tag(kind)
    up = updater(case, kind, n, 1)
    H, R, z = stack(B)
    joint = up(H, x, P, z, R)
    t.same(case, "joint correction vs information form", joint)
    for _ in range(3):
        order = rng.permutation(len(B))
        cx, cP = x, P
        for i in order:
            cx, cP = up(B[i][0], cx, cP, B[i][2], B[i][1])
            case.count("single_corrections")
        t.same(case, f"one by one in order {order.tolist()}", (cx, cP), joint)
        case.count("orders_compared")
    # shuffled rows of the joint measurement
    p = rng.permutation(len(H))
    t.same(case, "joint correction with rows reordered", up(H[p], x, P, z[p], R[np.ix_(p, p)]), joint)
    case.nontrivial = bool(H.any())


def scalar_rows(case):
    """Diagonal noise: row by row with scalar observation and noise."""
    rng = case.rng
    n, x, P, B = problem(case, blocks=1)
    H, R, z = B[0]
    R = np.diag(np.diag(R))
    rows = [(H[i:i + 1], R[i:i + 1, i:i + 1], z[i:i + 1]) for i in range(len(H))]
    t = Tol(case, x, P, rows)
    kind = gen.pick(rng, "standard", "extended")
    up = updater(case, kind, n, 1)
    joint = up(H, x, P, z, R)
    t.same(case, "joint correction vs information form", joint)
    for _ in range(2):
        cx, cP = x, P
        for i in rng.permutation(len(rows)):
            if kind == "standard" and rng.random() < .5:
                cx, cP = up(rows[i][0], cx, cP, float(z[i]), float(R[i, i]))
            else:
                cx, cP = up(rows[i][0], cx, cP, rows[i][2], rows[i][1])
        t.same(case, "row by row", (cx, cP), joint)
        case.count("orders_compared")
    case.nontrivial = bool(H.any())


def blind(case):
    """A measurement that does not depend on the state changes nothing."""
    rng = case.rng
    n, x, P, B = problem(case, blocks=1)
    H, R, z = B[0]
    up = updater(case, gen.pick(rng, "standard", "extended"), n, 1)
    gx, gP = up(H * 0, x, P, z * 1e6, R)
    case.close("mean after a blind measurement", gx, x, 1e-12, np.maximum(np.abs(x), 1e-300))
    mag = np.sqrt(np.maximum(np.diag(P), 1e-300))
    case.close("covariance after a blind measurement", gP, P, 1e-12, np.outer(mag, mag))
    # a blind row inside a real measurement
    t = Tol(case, x, P, B)
    m = len(H)
    H2 = np.concatenate([H, np.zeros((1, n))])
    s = float(np.max(np.diag(R)))
    R2 = np.zeros((m + 1, m + 1))
    R2[:m, :m] = R
    R2[m, m] = s
    t.same(case, "real measurement with a blind row appended", up(H2, x, P, np.append(z, 7 * np.sqrt(s)), R2))
    case.nontrivial = True


def repeated(case):
    """q independent copies equal one measurement of q times the precision."""
    rng = case.rng
    n, x, P, B = problem(case, blocks=1)
    H, R, z = B[0]
    q = int(rng.integers(2, 7))
    copies = [(H, R, z)] * q
    t = Tol(case, x, P, copies)
    up = updater(case, gen.pick(rng, "standard", "extended"), n, 1)
    once = up(H, x, P, z, R / q)
    t.same(case, "one measurement with noise R/q", once)
    cx, cP = x, P
    for _ in range(q):
        cx, cP = up(H, cx, cP, z, R)
    t.same(case, f"{q} repeated measurements", (cx, cP), once)
    # different values: their average
    zs = [z + rng.standard_normal(len(z)) * np.sqrt(np.diag(R)) for _ in range(q)]
    t2 = Tol(case, x, P, [(H, R, y) for y in zs])
    cx, cP = x, P
    for y in zs:
        cx, cP = up(H, cx, cP, y, R)
    t2.same(case, f"{q} readings vs their average", (cx, cP), up(H, x, P, np.mean(zs, axis=0), R / q))
    case.tag(f"q={q}")
    case.nontrivial = bool(H.any())


def noiseless(case):
    """R = 0: the corrected estimate reproduces the measurement, no uncertainty remains in it."""
    rng = case.rng
    n = int(gen.pick(rng, 1, 2, 3, 4, 6))
    m = int(rng.integers(1, n + 1))
    x = rng.standard_normal(n) * 3
    P = gen.spd(rng, n) + 0.05 * np.eye(n)
    H = rng.standard_normal((m, n))
    z = rng.standard_normal(m) * 5
    case.seen(x, P, H, z)
    case.desc.update(n=n, m=m)
    S = H @ P @ H.T
    if np.linalg.cond(S) > 1e8:
        raise Skip("nearly dependent rows")
    up = updater(case, gen.pick(rng, "standard", "extended"), n, 1)
    R = np.zeros((m, m)) if m > 1 or rng.random() < .5 else None
    if R is None:
        R, zz = np.zeros((1, 1)), z
    zz = z
    gx, gP = up(H, x, P, zz, R)
    tol = 1e-12 * np.linalg.cond(S) + 1e-10
    case.close("noise-free measurement reproduced", H @ gx, z, tol, np.abs(z) + np.abs(H) @ np.abs(gx))
    sd = np.sqrt(np.diag(P))
    mag = np.abs(H) @ sd
    case.close("uncertainty left in a noise-free measurement", H @ gP @ H.T, np.zeros((m, m)), tol, np.outer(mag, mag))
    case.close("cross covariance with a noise-free measurement", H @ gP, np.zeros((m, n)), tol, np.outer(mag, sd))
    case.nontrivial = True


def runs(case):
    """Whole filter runs: all sensors per step jointly, or one after another as extra steps."""
    rng = case.rng
    mod = gen.linear(case, T=int(rng.integers(1, 7)), m=int(rng.integers(2, 5)), missing=False, control=gen.pick(rng, "none", "both"))
    mod.R = np.array([np.diag(np.diag(r)) for r in mod.R])
    r = ref.recursive(mod)
    b = ref.bands(mod, r)
    ref.require(b)
    x, P, _ = run_kf(case, mod)
    T, n, m = mod.T, mod.n, mod.m
    order = [rng.permutation(m) for _ in range(T)]
    A = np.array([mod.A[k] if i == 0 else np.eye(n) for k in range(T) for i in range(m)])
    Q = np.array([mod.Q[k] if i == 0 else np.zeros((n, n)) for k in range(T) for i in range(m)])
    H = np.array([mod.H[k][order[k][i]][None] for k in range(T) for i in range(m)])
    R = np.array([[[mod.R[k][order[k][i], order[k][i]]]] for k in range(T) for i in range(m)])
    Z = np.array([[mod.Z[k][order[k][i]]] for k in range(T) for i in range(m)])
    B = U = None
    if mod.U is not None:
        B = np.array([mod.B[k] if i == 0 else mod.B[k] * 0 for k in range(T) for i in range(m)])
        U = np.array([mod.U[k] if i == 0 else mod.U[k] * 0 for k in range(T) for i in range(m)])
    flat = mod.but(A=A, Q=Q, H=H, R=R, Z=Z, B=B, U=U)
    rf = ref.recursive(flat)
    bf = ref.bands(flat, rf)
    ref.require(bf)
    y, C, _ = run_kf(case, flat)
    last = np.arange(T) * m + m - 1
    ok = (b.tx < MAX_TOL) & (b.tP < MAX_TOL) & (bf.tx[last] < MAX_TOL) & (bf.tP[last] < MAX_TOL)
    if not ok.any():
        raise Skip("no step decidable")
    case.close("filter with sensors one after another: mean", y[last][ok], x[ok],
               (b.tx + bf.tx[last])[ok][:, None], np.maximum(b.sx, bf.sx[last])[ok])
    case.close("filter with sensors one after another: covariance", C[last][ok], P[ok],
               (b.tP + bf.tP[last])[ok][:, None, None], np.maximum(b.sP, bf.sP[last])[ok])
    case.count("runs_compared")
    case.nontrivial = bool(np.any(mod.H))


FAMILIES = {
    "fuse": (500, 9000, fuse),
    "scalar_rows": (250, 4000, scalar_rows),
    "blind": (200, 3000, blind),
    "repeated": (250, 4000, repeated),
    "noiseless": (250, 4000, noiseless),
    "runs": (200, 3000, runs),
}
