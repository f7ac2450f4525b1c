"""C09: the estimator's measured weights give exactly the error covariance it reports."""

import numpy as np

from kk import gen, ref
from kk.common import ASSUME, KF, MAX_TOL, Skip, run_kf
from kk.ref import LD, ld, sym

PROP = "C09"
RULE = ("random linear-Gaussian models; the running filter/smoother is probed (zero data, unit data in every "
        "observation component) to measure its affine weights, whose true error statistics under the model are "
        "computed in extended precision and compared with the reported covariance, with zero bias, with zero "
        "correlation to the admissible observations and with white innovations; a share of runs only probes "
        "random directions of longer sequences; non-trivial = H not zero; distinct by input digest")
ASSUMPTIONS = ASSUME + ["the estimator is affine in its data (decided by C11)"]


def moments(mod):
    """Joint first and second moments of states and observations."""
    T, n, m = mod.T, mod.n, mod.m
    mu, V = np.zeros((T, n), LD), np.zeros((T, n, n), LD)
    x, P = ld(mod.x0), sym(ld(mod.P0))
    for k in range(T):
        A = ld(mod.A[k])
        x, P = A @ x + ref.control(mod, k), sym(A @ P @ A.T + ld(mod.Q[k]))
        mu[k], V[k] = x, P
    cov = np.zeros((T, n, T, n), LD)
    for j in range(T):
        c = V[j]
        cov[j, :, j] = c
        for k in range(j + 1, T):
            c = ld(mod.A[k]) @ c
            cov[k, :, j] = c
            cov[j, :, k] = c.T
    H = ld(mod.H)
    xz = np.einsum("kajb,jcb->kajc", cov, H).reshape(T, n, T * m)
    S = np.einsum("kca,kajd->kcjd", H, xz.reshape(T, n, T, m))
    for k in range(T):
        S[k, :, k] += ld(mod.R[k])
    mz = np.einsum("kca,ka->kc", H, mu).reshape(-1)
    return mu, V, xz, sym(S.reshape(T * m, T * m)), mz


def measure(case, mod, call):
    """b, W with estimate = b + W z, by probing the running estimator; dW is what rounding adds in reading W off."""
    T, n, m = mod.T, mod.n, mod.m
    f = gen.Form()
    zero = mod.but(Z=np.zeros((T, m)))
    d = gen.hand_over(case, zero, f)
    kf = case.lib("KalmanFilter()", gen.kf_from, KF, d)
    run = getattr(kf, call)
    b, P = case.lib(call, run, d["Z"], d["U"])
    W, dW = np.zeros((T, n, T * m), LD), np.zeros((T, n, T * m))
    unit = np.array([2.0 ** np.round(np.log2(np.sqrt(max(v, 1e-200)))) for v in
                     np.einsum("kii->ki", mod.H @ mod.H.transpose(0, 2, 1) + mod.R).reshape(-1)])
    unit = np.maximum(unit, 1e-3 * unit.max())
    # large probes make the offset's rounding irrelevant
    unit = unit * 2.0 ** 30
    for i in range(T * m):
        z = np.zeros(T * m)
        z[i] = unit[i]
        y, C = case.lib(call, run, z.reshape(T, m), d["U"])
        W[:, :, i] = (ld(y) - ld(b)) / unit[i]
        dW[:, :, i] = 1e-13 * (np.abs(y) + np.abs(b)) / unit[i]
    case.count("probe_runs", T * m + 1)
    return ld(b), W, P, dW


def decide(case, mod, call):
    T, n, m = mod.T, mod.n, mod.m
    smooth = call == "smooth"
    r = ref.recursive(mod, smooth)
    bd = ref.bands(mod, r, smooth)
    ref.require(bd)
    mu, V, xz, S, mz = moments(mod)
    b, W, P, dW = measure(case, mod, call)
    sP, tP, sx, tx = (bd.ssP, bd.stP, bd.ssx, bd.stx) if smooth else (bd.sP, bd.tP, bd.sx, bd.tx)
    dz = np.sqrt(np.diag(S)).astype(float)
    # the probed weights carry an absolute rounding error of about tx in units sd/dz
    wtol = float(max(tx.max(), tP.max()))
    if not wtol < 1e-6:
        raise Skip("weights cannot be measured accurately")
    for k in range(T):
        dx = np.sqrt(np.maximum(np.diag(V[k]), 0)).astype(float)
        dx = np.where(dx > 0, dx, 1.0)
        e = np.max(np.sqrt(np.maximum(np.diag(V.max(axis=0)), 0)).astype(float))
        case.close(f"{call} bias at {k}", b[k] + W[k] @ mz, mu[k],
                   10 * wtol, np.abs(mu[k]).astype(float) + dx + np.abs(W[k]).astype(float) @ np.abs(mz).astype(float)
                   + np.abs(b[k]).astype(float) + 1e-12 * e)
        # Cov(x - Wz, z): admissible observations only
        c = xz[k] - W[k] @ S
        upto = T * m if smooth else (k + 1) * m
        aS = np.abs(S).astype(float)
        mag = dx[:, None] * dz[None] + np.abs(W[k]).astype(float) @ aS + dW[k] @ aS / (10 * wtol)
        case.close(f"{call} error at {k} correlated with an observation", c[:, :upto], np.zeros((n, upto)),
                   10 * wtol, mag[:, :upto])
        if not smooth:
            case.check(not np.any(W[k][:, upto:]), f"filter estimate {k} depends on a later observation")
        true = sym(V[k] - W[k] @ xz[k].T - xz[k] @ W[k].T + W[k] @ S @ W[k].T)
        if tP[k] < MAX_TOL:
            # first-order effect of measuring W vanishes at the optimum, the second order stays
            w, tol = np.abs(W[k]).astype(float), 2 * tP[k] + 1e-9
            top = np.abs(V[k]).astype(float) + w @ np.abs(S).astype(float) @ w.T
            dw = (dW[k] + wtol * dx[:, None] / dz) @ dz
            case.close(f"{call} reported covariance {k} vs true error covariance", P[k], true, tol,
                       sP[k] + (1e-17 * top + np.outer(dw, dw)) / tol)
            case.count("error_covariances_checked")
    if not smooth:
        whiteness(case, mod, W, dW, V, S, wtol)
    case.count("correlations_checked", n * T * T * m)
    case.nontrivial = bool(np.any(mod.H))
    # the monitor must notice a perturbed weight
    if case.index < 20 and np.any(mod.H):
        k = int(case.rng.integers(T))
        i = int(case.rng.integers((k + 1) * m))
        sd = np.sqrt(np.maximum(np.diag(V[k]), 0)).astype(float)
        a = int(np.argmax(sd))
        W2 = W[k].copy()
        W2[a, i] += 1e-3 * sd[a] / dz[i]
        c = xz[k] - W2 @ S
        mag = sd[:, None] * dz[None] + np.abs(W2).astype(float) @ np.abs(S).astype(float) + 1e-300
        seen = np.max(np.abs(c[:, :(k + 1) * m]).astype(float) / mag[:, :(k + 1) * m]) > 10 * wtol
        case.count("monitor_self_tests" if seen else "monitor_self_tests_undecided")


def whiteness(case, mod, W, dW, V, S, wtol):
    """Innovations computed from the recorded estimates are uncorrelated."""
    T, m = mod.T, mod.m
    N, dN = np.zeros((T * m, T * m), LD), np.zeros((T * m, T * m))
    for k in range(T):
        N[k * m:(k + 1) * m, k * m:(k + 1) * m] = np.eye(m)
        if k:
            N[k * m:(k + 1) * m] -= ld(mod.H[k]) @ ld(mod.A[k]) @ W[k - 1]
            dN[k * m:(k + 1) * m] = np.abs(mod.H[k]) @ np.abs(mod.A[k]) @ (
                dW[k - 1] + wtol * np.outer(np.sqrt(np.maximum(np.diag(V[k - 1]), 0)), 1 / np.sqrt(np.diag(S))).astype(float))
    C = N @ S @ N.T
    aN, aS = np.abs(N).astype(float), np.abs(S).astype(float)
    read = dN @ aS @ aN.T
    mag = aN @ aS @ aN.T + (read + read.T) / (10 * wtol)
    for k in range(T):
        for j in range(k):
            s = np.s_[k * m:(k + 1) * m, j * m:(j + 1) * m]
            case.close(f"innovations {j} and {k} correlated", C[s], np.zeros((m, m)), 10 * wtol, mag[s])
    case.count("innovation_pairs", T * (T - 1) // 2)


def size(case, smooth):
    rng = case.rng
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    T = int(rng.integers(1, max(2, 28 // m)))
    return gen.linear(case, n=n, m=m, T=T, smooth=smooth)


def filt(case):
    decide(case, size(case, False), "filter")


def smooth(case):
    decide(case, size(case, True), "smooth")


def sampled(case):
    """Longer sequences: the estimator probed along random directions only."""
    rng = case.rng
    call = gen.pick(rng, "filter", "smooth")
    s = call == "smooth"
    mod = gen.linear(case, n=int(rng.integers(1, 5)), m=int(rng.integers(1, 4)), T=int(rng.integers(20, 50)), smooth=s,
                     stable=True)
    T, n, m = mod.T, mod.n, mod.m
    r = ref.recursive(mod, s)
    bd = ref.bands(mod, r, s)
    ref.require(bd)
    mu, V, xz, S, mz = moments(mod)
    d = gen.plain_kf(mod)
    kf = case.lib("KalmanFilter()", gen.kf_from, KF, d)
    run = getattr(kf, call)
    zero = case.lib(call, run, np.zeros((T, m)), d["U"])[0]
    tx = bd.stx if s else bd.tx
    wtol = float(tx.max())
    if not wtol < 1e-6:
        raise Skip("weights cannot be measured accurately")
    # probing with z = S g measures W S g, which must equal Cov(x, z) g for admissible g
    for _ in range(6):
        g = ld(rng.standard_normal(T * m) * (rng.random(T * m) < 0.3)) / np.sqrt(np.diag(S))
        j = int(rng.integers(T))
        if not s:
            g[(j + 1) * m:] = 0
        z = (S @ g).astype(float)
        y = case.lib(call, run, z.reshape(T, m), d["U"])[0]
        got = ld(y) - ld(zero)
        dx = np.sqrt(np.maximum(np.einsum("kii->ki", V), 0)).astype(float)
        dx = np.where(dx > 0, dx, 1)
        mag = dx * float(np.sum(np.abs(g) * np.sqrt(np.diag(S)))) + np.abs(zero) + np.abs(got).astype(float)
        lo = 0 if s else j
        want = np.einsum("kai,i->ka", xz, g)
        case.close(f"{call}: estimation error correlated with observations", got[lo:], want[lo:], 10 * wtol, mag[lo:])
        case.count("directions_probed")
    case.nontrivial = bool(np.any(mod.H))


FAMILIES = {
    "filter": (300, 5000, filt),
    "smooth": (220, 4000, smooth),
    "sampled": (150, 2500, sampled),
}
