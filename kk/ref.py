"""Oracles: extended-precision references and rounding envelopes.

batch()     joint Gaussian conditioning of the whole trajectory (no recursion)
recursive() textbook recursion in 80-bit arithmetic
exact()     joint conditioning in exact rational arithmetic (tiny models)
bands()     per-step tolerances measured from float64 runs of the documented
            formulas under one-ulp input perturbations
"""

from fractions import Fraction

import numpy as np

from kk.core import Skip

LD = np.longdouble
FLOOR = 1e-10
FACTOR = 300.0


def ld(a):
    return np.asarray(a, dtype=LD)


def chol(S, rel=1e-16):
    """Lower Cholesky factor in extended precision."""
    L = ld(S).copy()
    n = len(L)
    d0 = np.abs(np.diag(L)).copy()
    for j in range(n):
        if not L[j, j] > rel * d0[j]:
            raise Skip("matrix numerically singular")
        L[j, j] = np.sqrt(L[j, j])
        L[j + 1:, j] /= L[j, j]
        L[j + 1:, j + 1:] -= L[j + 1:, j, None] * L[None, j + 1:, j]
    return np.tril(L)


def low(L, B):
    """L^-1 B."""
    X = ld(B).copy()
    for i in range(len(L)):
        X[i] = X[i] / L[i, i]
        if i + 1 < len(L):
            X[i + 1:] -= (L[i + 1:, i, None] * X[None, i]) if X.ndim == 2 else L[i + 1:, i] * X[i]
    return X


def upp(L, B):
    """L^-T B."""
    X = ld(B).copy()
    for i in range(len(L) - 1, -1, -1):
        X[i] = X[i] / L[i, i]
        if i:
            X[:i] -= (L[i, :i, None] * X[None, i]) if X.ndim == 2 else L[i, :i] * X[i]
    return X


def sym(a):
    return (a + a.T) / 2


def control(mod, k):
    c = mod.control(k)
    return ld(c[0]) @ ld(c[1]) if isinstance(c, tuple) else ld(c)


class Result:
    """x,P filtered; xp,Pp predicted; K gains; xs,Ps smoothed (or None)."""


def update_ld(xp, Pp, H, R, y):
    """Optimal correction; y is the innovation."""
    H, Pp = ld(H), ld(Pp)
    HP = H @ Pp
    S = sym(HP @ H.T + ld(R))
    L = chol(S)
    W = low(L, HP)
    K = upp(L, W).T
    return ld(xp) + K @ ld(y), sym(Pp - W.T @ W), K


def recursive(mod, smooth=False):
    T, n, m = mod.T, mod.n, mod.m
    r = Result()
    r.x, r.P = np.zeros((T, n), LD), np.zeros((T, n, n), LD)
    r.xp, r.Pp = r.x.copy(), r.P.copy()
    r.K = np.zeros((T, n, m), LD)
    x, P = ld(mod.x0), sym(ld(mod.P0))
    for k in range(T):
        A = ld(mod.A[k])
        xp = A @ x + control(mod, k)
        Pp = sym(A @ P @ A.T + ld(mod.Q[k]))
        y = ld(mod.Z[k]) - ld(mod.H[k]) @ xp
        x, P, K = update_ld(xp, Pp, mod.H[k], mod.R[k], y)
        r.x[k], r.P[k], r.xp[k], r.Pp[k], r.K[k] = x, P, xp, Pp, K
    r.xs = r.Ps = None
    if smooth:
        r.xs, r.Ps = r.x.copy(), r.P.copy()
        for k in range(T - 2, -1, -1):
            r.xs[k], r.Ps[k] = rts_step(r.x[k], r.P[k], mod.A[k + 1], r.xp[k + 1], r.Pp[k + 1],
                                        r.xs[k + 1], r.Ps[k + 1])
    return r


def rts_step(x, P, A, xp, Pp, xs1, Ps1):
    L = chol(sym(ld(Pp)), rel=1e-13)
    G = upp(L, low(L, ld(A) @ sym(ld(P)))).T
    return ld(x) + G @ (ld(xs1) - ld(xp)), sym(ld(P) + G @ (ld(Ps1) - ld(Pp)) @ G.T)


def batch(mod):
    """Filtered and smoothed moments by conditioning the joint Gaussian."""
    T, n, m = mod.T, mod.n, mod.m
    mu = np.zeros((T, n), LD)
    V = np.zeros((T, n, n), LD)
    x, P = ld(mod.x0), sym(ld(mod.P0))
    for k in range(T):
        A = ld(mod.A[k])
        x, P = A @ x + control(mod, k), sym(A @ P @ A.T + ld(mod.Q[k]))
        mu[k], V[k] = x, P
    cov = np.zeros((T, n, T, n), LD)  # Cov(x_k, x_j)
    for j in range(T):
        c = V[j]
        cov[j, :, j] = c
        for k in range(j + 1, T):
            c = ld(mod.A[k]) @ c
            cov[k, :, j] = c
            cov[j, :, k] = c.T
    H = ld(mod.H)
    xz = np.einsum("kajb,jcb->kajc", cov, H)  # Cov(x_k, z_j)
    S = np.einsum("kca,kajd->kcjd", H, xz)
    for k in range(T):
        S[k, :, k] += ld(mod.R[k])
    S = sym(S.reshape(T * m, T * m))
    L = chol(S)
    w = low(L, (ld(mod.Z) - np.einsum("kca,ka->kc", H, mu)).reshape(-1))
    Y = low(L, xz.reshape(T * n, T * m).T).reshape(T * m, T, n)
    r = Result()
    r.x, r.P = mu.copy(), V.copy()
    r.xs, r.Ps = mu.copy(), V.copy()
    for k in range(T):
        y = Y[: (k + 1) * m, k]
        r.x[k] += y.T @ w[: (k + 1) * m]
        r.P[k] -= y.T @ y
        y = Y[:, k]
        r.xs[k] += y.T @ w
        r.Ps[k] -= y.T @ y
    r.w = w.reshape(T, m)
    return r


# ------------------------------------------------------------- exact rational

def _fmat(a):
    return [[Fraction(float(v)) for v in row] for row in np.atleast_2d(a)]


def _mm(a, b):
    bt = list(zip(*b))
    return [[sum((x * y for x, y in zip(r, c)), Fraction(0)) for c in bt] for r in a]


def _tr(a):
    return [list(r) for r in zip(*a)]


def _add(a, b, s=1):
    return [[x + s * y for x, y in zip(r, q)] for r, q in zip(a, b)]


def _solve(M, B):
    n, k = len(M), len(B[0])
    a = [list(M[i]) + list(B[i]) for i in range(n)]
    for i in range(n):
        p = next((r for r in range(i, n) if a[r][i] != 0), None)
        if p is None:
            raise Skip("singular (exact)")
        a[i], a[p] = a[p], a[i]
        inv = 1 / a[i][i]
        a[i] = [v * inv for v in a[i]]
        for r in range(n):
            if r != i and a[r][i] != 0:
                f = a[r][i]
                a[r] = [v - f * w for v, w in zip(a[r], a[i])]
    return [row[n:n + k] for row in a]


def exact(mod):
    """Exact filtered and smoothed moments (float64-rounded at the very end)."""
    T, n, m = mod.T, mod.n, mod.m
    mu, V = [], []
    x, P = _tr(_fmat(mod.x0)), _fmat(mod.P0)
    for k in range(T):
        A = _fmat(mod.A[k])
        x = _mm(A, x)
        c = mod.control(k)
        if isinstance(c, tuple):
            x = _add(x, _mm(_fmat(c[0]), _tr(_fmat(c[1]))))
        P = _add(_mm(_mm(A, P), _tr(A)), _fmat(mod.Q[k]))
        mu.append(x)
        V.append(P)
    cov = {}
    for j in range(T):
        c = V[j]
        cov[j, j] = c
        for k in range(j + 1, T):
            c = _mm(_fmat(mod.A[k]), c)
            cov[k, j] = c
            cov[j, k] = _tr(c)
    H = [_fmat(mod.H[k]) for k in range(T)]

    def condition(k, upto):
        N = upto * m
        S = [[Fraction(0)] * N for _ in range(N)]
        C = [[Fraction(0)] * N for _ in range(n)]
        y = []
        for i in range(upto):
            for j in range(upto):
                b = _mm(_mm(H[i], cov[i, j]), _tr(H[j]))
                if i == j:
                    b = _add(b, _fmat(mod.R[i]))
                for a_ in range(m):
                    for b_ in range(m):
                        S[i * m + a_][j * m + b_] = b[a_][b_]
            b = _mm(cov[k, i], _tr(H[i]))
            for a_ in range(n):
                for b_ in range(m):
                    C[a_][i * m + b_] = b[a_][b_]
            y += _add(_tr(_fmat(mod.Z[i])), _mm(H[i], mu[i]), -1)
        G = _tr(_solve(S, _tr(C)))
        xx = _add(mu[k], _mm(G, y))
        PP = _add(V[k], _mm(G, _tr(C)), -1)
        return [float(v[0]) for v in xx], [[float(v) for v in r] for r in PP]

    r = Result()
    f = [condition(k, k + 1) for k in range(T)]
    s = [condition(k, T) for k in range(T)]
    r.x, r.P = np.array([a for a, _ in f]), np.array([b for _, b in f])
    r.xs, r.Ps = np.array([a for a, _ in s]), np.array([b for _, b in s])
    return r


# -------------------------------------------------------- float64 and envelopes

def spread64(style, A, P, Q):
    """A P A' + Q in float64, in one of several algebraically equal forms."""
    if style == "flat":  # every product of three summed on its own
        return np.einsum("ij,jk,lk->il", A, P, A) + Q
    return (A @ (P @ A.T) if style == "doc" else A @ P @ A.T) + Q


def correct64(style, Pp, H, R):
    """(gain, corrected covariance) in float64, in one of several algebraically equal forms."""
    I = np.eye(len(Pp))
    if style == "inv":
        K = Pp @ H.T @ np.linalg.inv(H @ Pp @ H.T + R)
        return K, (I - K @ H) @ Pp
    S = spread64("flat" if style == "flat" else "doc", H, Pp, R)
    if style in ("right", "ksk"):
        K = np.linalg.solve(S, (Pp @ H.T).T).T
        return K, Pp - (K @ (H @ Pp) if style == "right" else K @ S @ K.T)
    K = np.linalg.solve(S.T, H @ Pp.T).T
    L = I - K @ H
    return K, (L @ Pp @ L.T + K @ R @ K.T if style == "joseph" else L @ Pp)


def back64(style, P, A, Pp):
    """Smoother gain in one of several algebraically equal forms."""
    if style == "inv":
        return P @ A.T @ np.linalg.inv(Pp)
    if style == "right":
        return np.linalg.solve(Pp, A @ P).T
    return np.linalg.solve(Pp.T, (P @ A.T).T).T


STYLES = ("inv", "right", "ksk", "joseph", "flat")


def run64(mod, smooth=False, inv=False, rng=None, style=None):
    """The documented formulas in float64 (own code), optionally perturbed by ulps."""
    style = style or ("inv" if inv else "doc")
    def w(a):
        if a is None or rng is None:
            return a
        return a * (1 + 2.5e-16 * rng.standard_normal(a.shape))
    T, n, m = mod.T, mod.n, mod.m
    A, H, Q, R, Z = w(mod.A), w(mod.H), w(mod.Q), w(mod.R), w(mod.Z)
    r = Result()
    r.x, r.P, r.K = np.zeros((T, n)), np.zeros((T, n, n)), np.zeros((T, n, m))
    r.xp, r.Pp = np.zeros((T, n)), np.zeros((T, n, n))
    x, P = w(mod.x0), w(mod.P0)
    try:
        for k in range(T):
            c = mod.control(k)
            c = w(c[0]) @ w(c[1]) if isinstance(c, tuple) else c
            xp = A[k] @ x + c
            Pp = spread64(style, A[k], P, Q[k])
            K, P = correct64(style, Pp, H[k], R[k])
            x = xp + K @ (Z[k] - H[k] @ xp)
            if rng is not None:
                P = w(P)
                x = w(x)
            r.x[k], r.P[k], r.K[k], r.xp[k], r.Pp[k] = x, P, K, xp, Pp
        r.xs = r.Ps = None
        if smooth:
            r.xs, r.Ps = r.x.copy(), r.P.copy()
            for k in range(T - 2, -1, -1):
                G = back64(style, r.P[k], A[k + 1], r.Pp[k + 1])
                r.xs[k] = r.x[k] + G @ (r.xs[k + 1] - r.xp[k + 1])
                r.Ps[k] = r.P[k] + G @ ((r.Ps[k + 1] - r.Pp[k + 1]) @ G.T)
    except np.linalg.LinAlgError:
        raise Skip("float64 reference singular") from None
    return r


def _run_max(a, w=2):
    """Running maximum over a small time window."""
    out = a.copy()
    for s in range(1, w + 1):
        out[s:] = np.maximum(out[s:], a[:-s])
        out[:-s] = np.maximum(out[:-s], a[s:])
    return out


class Bands:
    """Scales and tolerances: x error <= tx[k]*sx[k], P error <= tP[k]*sP[k]."""


def noise_free(R):
    """Whether any measurement is exact: what it leaves is rounding of what was there before, not of what is left."""
    R = np.asarray(R, float)
    return bool((np.einsum("...ii->...i", R) == 0).any()) if R.ndim > 1 else bool((R == 0).any())


def scales(mod, x, P, Pp):
    """Natural units of every component at every step."""
    std = np.sqrt(np.maximum(np.einsum("kii->ki", Pp), 0)).astype(float)
    prior0 = np.sqrt(np.maximum(np.diag(mod.P0), 0)).astype(float)
    std = np.maximum(std, 1e-6 * np.maximum.accumulate(np.vstack([prior0, std]))[1:])
    size = np.abs(x).astype(float)
    size = np.maximum(size, 1e-3 * np.maximum.accumulate(size))
    sx = size + std
    top = np.max(sx, axis=0)
    sx = np.where(sx > 0, sx, np.where(top > 0, top, 1.0))
    d = np.sqrt(np.maximum(np.einsum("kii->ki", P), 0)).astype(float)
    d = np.maximum(d, (.1 if noise_free(mod.R) else 1e-5) * std)
    d = np.where(d > 0, d, np.where(std.max(axis=0) > 0, std.max(axis=0), 1.0))
    return sx, d[:, :, None] * d[:, None, :]


def bands(mod, ref, smooth=False, runs=None):
    """Tolerances for comparing float64 results of mod with ref."""
    rng = np.random.default_rng(12345)
    runs = runs or [run64(mod, smooth, rng=rng, style=s) for s in ("doc", "doc", "ksk")] + [
        run64(mod, smooth, style=s) for s in STYLES]
    b = Bands()
    b.sx, b.sP = scales(mod, ref.x, ref.P, ref.Pp)
    b.tx, b.tP = _tol(runs, ref.x, ref.P, b, "x", "P")
    if smooth:
        b.ssx, b.ssP = scales(mod, ref.xs, ref.Ps, ref.Pp)
        b.stx, b.stP = (4 * t for t in _tol(runs, ref.xs, ref.Ps, b, "xs", "Ps", b.ssx, b.ssP))
    b.cond = 1.0
    if getattr(mod, "H", None) is not None:
        Pp = np.asarray(ref.Pp, float)
        S = np.einsum("kij,kjl,kml->kim", mod.H[:mod.T], Pp, mod.H[:mod.T]) + mod.R[:mod.T]
        b.cond = _cond(S)
        if smooth and mod.T > 1:
            b.cond = max(b.cond, _cond(Pp[1:]))
    worst = max(float(np.median(b.tx)), float(np.median(b.tP)))
    if smooth:
        worst = max(worst, float(np.median(b.stx)), float(np.median(b.stP)))
    b.median = worst
    return b


def _cond(S):
    """Largest condition number over time, in natural units."""
    d = np.sqrt(np.maximum(np.einsum("kii->ki", S), 0))
    if not (d > 0).all() or not np.isfinite(d).all():
        return np.inf
    N = S / (d[:, :, None] * d[:, None, :])
    w = np.linalg.eigvalsh((N + N.transpose(0, 2, 1)) / 2)
    return float(np.max(w[:, -1] / np.maximum(w[:, 0], 1e-300)))


def _tol(runs, x, P, b, nx, nP, sx=None, sP=None):
    sx = b.sx if sx is None else sx
    sP = b.sP if sP is None else sP
    T = len(x)
    ex, eP = np.zeros(T), np.zeros(T)
    for r in runs:
        with np.errstate(all="ignore"):
            dx = np.max(np.abs(getattr(r, nx) - x).astype(float) / sx, axis=1)
            dP = np.max(np.abs(getattr(r, nP) - P).astype(float) / sP, axis=(1, 2))
        ex = np.maximum(ex, np.where(np.isfinite(dx), dx, np.inf))
        eP = np.maximum(eP, np.where(np.isfinite(dP), dP, np.inf))
    return FLOOR + FACTOR * _run_max(ex), FLOOR + FACTOR * _run_max(eP)


def require(b, limit=1e-4):
    """Refuse to decide executions whose rounding envelope is too wide."""
    if not b.cond < 1e12:
        raise Skip("numerically singular innovation or predicted covariance")
    if not b.median < limit:
        raise Skip("ill-conditioned: rounding envelope too wide")
