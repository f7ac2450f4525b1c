"""C22: steady state of time-invariant filters and forgetting of the start."""

import numpy as np

from kk import gen, ref
from kk.common import ASSUME, MAX_TOL, Skip, frail, run_kf
from kk.ref import LD, ld, sym

PROP = "C22"
RULE = ("random detectable and stabilisable time-invariant models (stable, marginal, unstable; rank-deficient process "
        "noise; mixed units) run from zero, huge, singular, converged and random initial covariances and far initial "
        "means: covariances and gains compared at every step with the closed form around the Riccati solution (doubling "
        "algorithm, 80-bit), two starts with each other, zero start for monotonicity, runs of thousands of steps, "
        "switches between models; non-trivial = the run passed its convergence horizon; distinct by input digest")
ASSUMPTIONS = ASSUME + ["models with a closed-loop rate below 0.97 and non-singular measurement noise",
                        "run lengths limited where rounding asymmetry could be amplified by the open loop"]


def lu(M, B):
    """M^-1 B in extended precision (partial pivoting)."""
    M, B = ld(M).copy(), ld(B).copy()
    n = len(M)
    for j in range(n):
        p = j + int(np.argmax(np.abs(M[j:, j])))
        if M[p, j] == 0:
            raise Skip("singular matrix in the oracle")
        if p != j:
            M[[j, p]], B[[j, p]] = M[[p, j]], B[[p, j]]
        f = M[j + 1:, j] / M[j, j]
        M[j + 1:] -= f[:, None] * M[None, j]
        B[j + 1:] -= f[:, None] * B[None, j]
    for j in range(n - 1, -1, -1):
        B[j] = (B[j] - M[j, j + 1:] @ B[j + 1:]) / M[j, j]
    return B


class Steady:
    """Stabilising solution of the filter Riccati equation by doubling, and the closed form around it."""

    def __init__(self, A, H, Q, R):
        self.A, self.H, self.Q, self.R = (ld(a) for a in (A, H, Q, R))
        n = len(self.A)
        I = np.eye(n, dtype=LD)
        a, g, x = self.A.T, sym(self.H.T @ lu(self.R, self.H)), sym(self.Q)
        for _ in range(60):
            W = lu(I + g @ x, np.hstack([a, g]))
            wa, wg = W[:, :n], W[:, n:]
            x2 = sym(x + a.T @ x @ wa)
            g = sym(g + a @ wg @ a.T)
            a = a @ wa
            done = np.max(np.abs(x2 - x)) <= 1e-19 * np.max(np.abs(x2))
            x = x2
            if done:
                break
        else:
            raise Skip("doubling did not converge")
        self.Pp = x
        S = sym(self.H @ x @ self.H.T + self.R)
        self.K = lu(S, self.H @ x).T
        self.P = sym(x - self.K @ self.H @ x)
        self.Ac = self.A @ (I - self.K @ self.H)
        self.Phi = (I - self.K @ self.H) @ self.A
        res = sym(self.A @ self.P @ self.A.T + self.Q) - x
        sd = np.sqrt(np.diag(x))
        if not (sd > 0).all() or np.max(np.abs(res) / np.outer(sd, sd)) > 1e-15:
            raise Skip("steady state too ill-conditioned")
        Ac = self.Ac.astype(float)
        self.rate = float(np.max(np.abs(np.linalg.eigvals(Ac))))
        A_, KH = self.A.astype(float), (self.K @ self.H).astype(float)
        grow = max(np.max(np.abs(np.linalg.eigvals(A_))),
                   np.max(np.abs(np.linalg.eigvals(A_ @ (np.eye(n) + KH)))))
        self.grow = self.rate * float(grow)
        self.HS = self.H.T @ lu(S, self.H)

    def path(self, P0, T):
        """Predicted, filtered covariance and gain at each step from filtered P0, no recursion in P."""
        n = len(self.A)
        I = np.eye(n, dtype=LD)
        X = sym(self.A @ ld(P0) @ self.A.T + self.Q) - self.Pp
        F, W = I.copy(), np.zeros((n, n), LD)
        Pps, Ps, Ks = [], [], []
        for _ in range(T):
            Pp = sym(self.Pp + lu((I + W @ X).T, (F @ X).T).T @ F.T) if X.any() else self.Pp
            S = sym(self.H @ Pp @ self.H.T + self.R)
            K = lu(S, self.H @ Pp).T
            Pps.append(Pp)
            Ks.append(K)
            Ps.append(sym(Pp - K @ self.H @ Pp))
            W = sym(W + F.T @ self.HS @ F)
            F = self.Ac @ F
        return np.array(Pps), np.array(Ps), np.array(Ks)

    def horizon(self, Pps, Ks, x0_scale):
        """First step from which start and covariance differences are below 1e-13."""
        n = len(self.A)
        sd = np.sqrt(np.diag(self.Pp))
        F = np.eye(n, dtype=LD)
        for k in range(len(Pps)):
            F = (np.eye(n, dtype=LD) - Ks[k] @ self.H) @ self.A @ F
            dP = np.max(np.abs(Pps[k] - self.Pp) / np.outer(sd, sd))
            dx = np.max(np.abs(F) @ ld(x0_scale) / sd)
            if dP < 1e-13 and dx < 1e-13:
                return k
        return len(Pps)


def cross(case, s):
    """The doubling solution must agree with scipy's."""
    try:
        from scipy.linalg import solve_discrete_are
        X = solve_discrete_are(*(np.asarray(a, float) for a in (s.A.T, s.H.T, s.Q, s.R)))
    except Exception:  # noqa: BLE001
        case.count("scipy_gave_no_solution")
        return
    sd = np.sqrt(np.diag(s.Pp)).astype(float)
    if np.max(np.abs(X - s.Pp) / np.outer(sd, sd)) > 1e-5:
        raise Skip("Riccati solvers disagree")
    case.count("riccati_cross_checks")


def matrices(case, n=None, m=None, fast=False):
    rng = case.rng
    n = n or int(gen.pick(rng, 1, 2, 2, 3, 3, 4, 5, 6, 8))
    m = m or int(gen.pick(rng, 1, 1, 2, 3, 4))
    for _ in range(60):
        A = gen.trans(rng, n)
        if rng.random() < .3:
            A = A * rng.uniform(1, 1.35)
        H = gen.obs(rng, m, n)
        r = int(gen.pick(rng, n, n, n, 1, max(1, n // 2)))
        G = rng.standard_normal((n, r)) * 10.0 ** rng.uniform(-1.5, .7)
        Q = G @ G.T
        Q = (Q + Q.T) / 2
        R = gen.spd(rng, m) * 10.0 ** rng.uniform(-2, 1) + 1e-3 * np.eye(m)
        if not (_reach(A, G) and _reach(A.T, H.T)):
            continue
        try:
            s = Steady(A, H, Q, R)
        except Skip:
            continue
        if s.rate < (.8 if fast else .97) and np.max(np.abs(s.Pp)) < 1e8:
            break
    else:
        raise Skip("no suitable model found")
    if rng.random() < .3:
        d, e = 2.0 ** rng.integers(-12, 13, n), 2.0 ** rng.integers(-12, 13, m)
        A, H = A * d[:, None] / d, H * e[:, None] / d
        Q, R = Q * np.outer(d, d), R * np.outer(e, e)
        s = Steady(A, H, Q, R)
        case.tag("mixed units")
    cross(case, s)
    rho = float(np.max(np.abs(np.linalg.eigvals(A))))
    case.tag("unstable" if rho > 1.001 else "marginal" if rho > .999 else "stable", f"n={n}", f"m={m}",
             "Q full rank" if r >= n else "Q rank-deficient")
    case.desc.update(n=n, m=m, rate=round(s.rate, 4), open_loop=round(rho, 4))
    return A, H, Q, R, s


def _reach(A, G):
    """Every mode of A near or outside the unit circle is driven by G."""
    n = len(A)
    return all(np.linalg.svd(np.hstack([A - v * np.eye(n), G]), compute_uv=False)[n - 1] > 1e-2
               for v in np.linalg.eigvals(A) if abs(v) > .97)


def start(case, s, kind=None):
    rng = case.rng
    n = len(s.A)
    sd = np.sqrt(np.diag(s.Pp)).astype(float)
    kind = kind or gen.pick(rng, "zero", "huge", "rank one", "converged", "random", "tiny", "half")
    if kind == "zero":
        P = np.zeros((n, n))
    elif kind == "huge":
        P = np.diag(sd ** 2) * 10.0 ** rng.uniform(3, 5)
    elif kind == "rank one":
        v = rng.standard_normal(n) * sd
        P = np.outer(v, v)
    elif kind == "converged":
        P = s.P.astype(float)
        P = (P + P.T) / 2
    elif kind == "tiny":
        P = np.diag(sd ** 2) * 1e-8
    elif kind == "half":
        P = np.diag(sd ** 2 * (rng.random(n) < .5) * 10)
    else:
        P = gen.spd(rng, n) * np.outer(sd, sd) * 10.0 ** rng.uniform(-2, 2)
    x = rng.standard_normal(n) * sd * gen.pick(rng, 0, 1, 100, 1e4)
    case.tag(f"start {kind}")
    return x, P


def data(case, s, T, n, m):
    rng = case.rng
    so = np.sqrt(np.diag(s.H @ s.Pp @ s.H.T + s.R)).astype(float)
    Z = rng.standard_normal((T, m)) * so * gen.pick(rng, 1, 1, 30)
    B = U = None
    if rng.random() < .4:
        p = int(gen.pick(rng, 1, 2))
        sd = np.sqrt(np.diag(s.Pp)).astype(float)
        B = np.repeat((rng.standard_normal((n, p)) * sd[:, None])[None], T, axis=0)
        U = rng.standard_normal((T, p))
    return Z, B, U


def model(A, H, Q, R, x0, P0, Z, B, U):
    T = len(Z)
    rep = lambda a: np.repeat(a[None], T, axis=0)  # noqa: E731
    return gen.Lin(A=rep(A), H=rep(H), Q=rep(Q), R=rep(R), x0=x0, P0=P0, Z=Z, B=B, U=U)


def limit(s, T):
    """Longest run in which no equivalent formula amplifies rounding asymmetry visibly."""
    if s.grow < .999:
        return T
    return int(min(T, max(5, np.log(1e4) / np.log(max(s.grow, 1.001)))))


def compare(case, what, mod, P, gains, Pps, Ps, Ks, runs=None):
    """All covariances and gains of a library run with the closed form."""
    runs = runs or own_runs(mod)
    sd = np.sqrt(np.maximum(np.einsum("kii->ki", Pps), 0)).astype(float)
    d = np.sqrt(np.maximum(np.einsum("kii->ki", Ps), 0)).astype(float)
    d = np.maximum(d, 1e-5 * sd)
    d = np.where(d > 0, d, np.max(d) + 1e-300)
    S = np.einsum("kij,kjl,kml->kim", mod.H, Pps.astype(float), mod.H) + mod.R
    so = np.sqrt(np.einsum("kii->ki", S))
    sP = d[:, :, None] * d[:, None, :]
    top = np.maximum(sd, 1e-6 * sd.max(axis=1)[:, None])
    top = np.where(top > 0, top, 1.0)
    sK = top[:, :, None] / so[:, None, :]
    eP = eK = np.zeros(mod.T)
    for q in runs:
        eP = np.maximum(eP, np.max(np.abs(q.P - Ps).astype(float) / sP, axis=(1, 2)))
        eK = np.maximum(eK, np.max(np.abs(q.K - Ks).astype(float) / sK, axis=(1, 2)))
    tP = ref.FLOOR + ref.FACTOR * ref._run_max(eP)
    tK = ref.FLOOR + ref.FACTOR * ref._run_max(eK)
    ok = (tP < MAX_TOL) & (tK < MAX_TOL)
    case.count("steps_decided", int(ok.sum()))
    case.count("steps_undecided", int((~ok).sum()))
    if not ok.any():
        raise Skip("no step decidable")
    case.close(f"{what}: covariance", P[ok], Ps[ok], tP[ok][:, None, None], sP[ok])
    case.check(len(gains) == mod.T, f"{what}: {len(gains)} gains for {mod.T} steps")
    case.close(f"{what}: gain", np.asarray(gains)[ok], Ks[ok], tK[ok][:, None, None], sK[ok])
    return ok


def own_runs(mod):
    rng = np.random.default_rng(31)
    return [ref.run64(mod, rng=rng)] + [ref.run64(mod, style=s) for s in ref.STYLES]


def converge(case):
    """From any start, every covariance and gain follows the closed form to the Riccati solution."""
    rng = case.rng
    A, H, Q, R, s = matrices(case)
    T = limit(s, int(min(220, 10 + 18 / -np.log(s.rate + 1e-9))))
    x0, P0 = start(case, s)
    mod = model(A, H, Q, R, x0, P0, *data(case, s, T, len(A), len(H)))
    case.seen(*mod.arrays())
    f = gen.form(case, mod)
    x, P, kf = run_kf(case, mod, f)
    Pps, Ps, Ks = s.path(P0, T)
    ok = compare(case, "run", mod, P, kf.kalman_gains, Pps, Ps, Ks)
    k = s.horizon(Pps, Ks, np.zeros(len(A)))
    if k < T:
        case.count("runs_converged")
        case.count("converged_steps", int(ok[k:].sum()))
    case.desc.update(T=T, converged_at=k)
    case.nontrivial = k < T


def forget(case):
    """Two starts, same data: equal once the closed loop has forgotten them."""
    A, H, Q, R, s = matrices(case)
    n = len(A)
    (xa, Pa), (xb, Pb) = start(case, s), start(case, s)
    size = np.abs(xa) + np.abs(xb) + np.sqrt(np.maximum(np.diag(Pa) + np.diag(Pb), 0))
    k = max(s.horizon(*s.path(P, 500)[::2], size) for P in (Pa, Pb))
    if k >= 500:
        raise Skip("not forgotten within the oracle's horizon")
    k = int(1.4 * k) + 5
    T = limit(s, k + 20)
    if k >= T:
        raise Skip("not forgotten within the run")
    Z, B, U = data(case, s, T, n, len(H))
    ma, mb = model(A, H, Q, R, xa, Pa, Z, B, U), model(A, H, Q, R, xb, Pb, Z, B, U)
    case.seen(*ma.arrays(), xb, Pb)
    ra, rb = run_kf(case, ma), run_kf(case, mb)
    qa, qb = own_runs(ma), own_runs(mb)
    sd = np.sqrt(np.diag(s.Pp)).astype(float)
    sx = np.abs(qa[0].x) + sd
    pairs = list(zip(qa, qb)) + [(qa[0], q) for q in qa[1:]]
    e = np.max([np.max(np.abs(p.x - q.x) / sx, axis=1) for p, q in pairs], axis=0)
    tol = 1e-9 + ref.FACTOR * ref._run_max(e)
    ok = tol[k:] < MAX_TOL
    if not ok.any():
        raise Skip("no step decidable")
    case.close("estimates from two starts", ra[0][k:][ok], rb[0][k:][ok], tol[k:][ok][:, None], sx[k:][ok])
    d = np.maximum(np.sqrt(np.maximum(np.diag(s.P), 0)).astype(float), 1e-5 * sd)
    eP = np.max([np.max(np.abs(p.P[k:] - s.P).astype(float) / np.outer(d, d)) for p in qa + qb])
    tP = 1e-9 + ref.FACTOR * eP
    if tP < MAX_TOL:
        case.close("covariances from two starts", ra[1][k:], rb[1][k:], 2 * tP, np.outer(d, d))
    case.count("starts_forgotten", 2)
    case.desc.update(T=T, forgotten_at=k)
    case.nontrivial = True


def monotone(case):
    """From certainty the filtered covariance only grows."""
    A, H, Q, R, s = matrices(case)
    T = limit(s, int(min(150, 10 + 18 / -np.log(s.rate + 1e-9))))
    x0, P0 = start(case, s, "zero")
    mod = model(A, H, Q, R, x0, P0, *data(case, s, T, len(A), len(H)))
    case.seen(*mod.arrays())
    x, P, kf = run_kf(case, mod)
    sd = np.sqrt(np.diag(s.Pp)).astype(float)
    Pps, Ps, Ks = s.path(P0, T)
    e = max(float(np.max(np.abs(q.P - Ps).astype(float) / np.outer(sd, sd))) for q in own_runs(mod))
    tol = 1e-12 + ref.FACTOR * e
    if tol > 1e-4:
        raise Skip("ill-conditioned")
    last = np.zeros_like(P0)
    for k in range(T):
        D = (P[k] - last) / np.outer(sd, sd)
        w = np.linalg.eigvalsh((D + D.T) / 2)[0]
        case.check(w >= -tol, f"started from certainty the covariance decreases at step {k} by {-w:.3g} of its scale")
        last = P[k]
    case.count("increments_checked", T)
    case.desc.update(T=T)
    case.nontrivial = True


def endless(case):
    """Long after convergence nothing drifts."""
    rng = case.rng
    for _ in range(20):
        A, H, Q, R, s = matrices(case)
        if s.grow < .999:
            break
    else:
        raise Skip("no suitable model found")
    T = int(gen.pick(rng, 500, 1000, 2500)) * (4 if case.tier == "thorough" else 1)
    x0, P0 = start(case, s)
    mod = model(A, H, Q, R, x0, P0, *data(case, s, T, len(A), len(H)))
    case.seen(A, H, Q, R, x0, P0)
    if frail(mod, lambda m, s: ref.run64(m, style=s)):
        raise Skip("one of the equal forms loses the solution to rounding")
    x, P, kf = run_kf(case, mod)
    n0 = min(T, 400)
    Pps, Ps, Ks = s.path(P0, n0)
    k = s.horizon(Pps, Ks, np.zeros(len(A)))
    if k >= n0:
        raise Skip("not converged within the oracle's horizon")
    tail = np.full(T - n0, n0 - 1)
    at = np.concatenate([np.arange(n0), tail])
    compare(case, "long run", mod, P, kf.kalman_gains, Pps[at], Ps[at], Ks[at])
    case.count("converged_steps", T - k)
    case.desc.update(T=T, converged_at=k)
    case.tag(f"T={T}")
    case.nontrivial = True


def switch(case):
    """After an abrupt change of the model the new steady state is reached, any number of times."""
    rng = case.rng
    n = int(gen.pick(rng, 1, 2, 3, 4))
    m = int(gen.pick(rng, 1, 2, 3))
    regimes = [matrices(case, n, m, fast=True) for _ in range(int(rng.integers(2, 4)))]
    parts, seq = [], []
    x0, P0 = start(case, regimes[0][4])
    P = P0
    for i in range(int(rng.integers(2, 5))):
        A, H, Q, R, s = regimes[i % len(regimes)]
        t = limit(s, int(gen.pick(rng, 10, 40, 90)))
        Pps, Ps, Ks = s.path(P, t)
        parts.append((Pps, Ps, Ks, s))
        seq += [i % len(regimes)] * t
        P = Ps[-1]
    T = len(seq)
    pickup = lambda j: np.stack([regimes[i][j] for i in seq])  # noqa: E731
    Z, B, U = data(case, regimes[0][4], T, n, m)
    mod = gen.Lin(A=pickup(0), H=pickup(1), Q=pickup(2), R=pickup(3), x0=x0, P0=P0, Z=Z, B=B, U=U)
    case.seen(*mod.arrays())
    x, P, kf = run_kf(case, mod, gen.form(case, mod))
    compare(case, "switching run", mod, P, kf.kalman_gains, *(np.concatenate([p[j] for p in parts]) for j in range(3)))
    conv = sum(s.horizon(a, c, np.zeros(n)) < len(a) for a, b, c, s in parts)
    case.count("regimes_converged", conv)
    case.tag(f"{len(parts)} regimes")
    case.desc.update(T=T, regimes=len(parts))
    case.nontrivial = conv > 0


def settled(case):
    """Long standing at the steady state, then one matrix alone changes, slightly or a lot."""
    rng = case.rng
    n, m = int(gen.pick(rng, 1, 1, 2, 3)), int(gen.pick(rng, 1, 2))
    cur = matrices(case, n, m, fast=True)
    if cur[4].grow >= .999:
        raise Skip("cannot stand long enough")
    x0, P0 = start(case, cur[4])
    first, parts, seq, regimes, P = cur, [], [], [], P0
    for i in range(int(rng.integers(2, 5))):
        s = cur[4]
        t = limit(s, int(gen.pick(rng, 60, 150, 300, 520) if i < 2 else gen.pick(rng, 5, 60)))
        regimes.append(cur)
        parts.append(s.path(P, t))
        seq += [i] * t
        P = parts[-1][1][-1]
        for _ in range(20):
            j = int(gen.pick(rng, 0, 1, 2, 2, 3, 3))
            new = list(cur[:4]) if rng.random() < .8 else list(first[:4])
            scale = gen.pick(rng, 4.0, .25, 1.01, 30.0, 1.0001)
            new[j] = new[j] * (scale if j > 1 else gen.pick(rng, -1.0, .9, 1.02, .5))
            try:
                ns = Steady(*new)
            except Skip:
                continue
            if ns.rate < .85 and ns.grow < .999:
                break
        else:
            break
        case.tag("changed " + "AHQR"[j])
        cur = (*new, ns)
    if len(parts) < 2:
        raise Skip("no second regime found")
    pickup = lambda j: np.stack([regimes[i][j] for i in seq])  # noqa: E731
    Z, B, U = data(case, first[4], len(seq), n, m)
    mod = gen.Lin(A=pickup(0), H=pickup(1), Q=pickup(2), R=pickup(3), x0=x0, P0=P0, Z=Z, B=B, U=U)
    case.seen(*mod.arrays())
    x, P, kf = run_kf(case, mod, gen.form(case, mod))
    compare(case, "settled run", mod, P, kf.kalman_gains, *(np.concatenate([p[j] for p in parts]) for j in range(3)))
    stood = [int(np.sum(np.all(np.diff(np.asarray(p[2], float), axis=0) == 0, axis=(1, 2)))) for p in parts]
    case.count("standing_steps", sum(stood))
    case.desc.update(T=len(seq), regimes=len(parts), stood=stood)
    case.nontrivial = True


FAMILIES = {
    "converge": (200, 3000, converge),
    "forget": (100, 1500, forget),
    "monotone": (80, 1200, monotone),
    "endless": (20, 200, endless),
    "switch": (80, 1200, switch),
    "settled": (60, 1000, settled),
}
WORKERS = 8
