"""C10: prefixes, perturbed futures, surplus entries and resumed runs."""

import numpy as np

from kk import gen, ref
from kk.common import (ASSUME, EKF, KF, Skip, agree, ekf_bands, ekf_filter_check, run_ekf, run_kf, shapes,
                       steps, tame)

PROP = "C10"
RULE = ("random linear and nonlinear models and split points; paired executions: truncated input, every later entry "
        "replaced, surplus model entries, smoother on a prefix, new filter started from returned estimate, and a "
        "single entry changed at one step checked against the oracle; non-trivial = sequence of length >= 2; "
        "distinct by input digest")
ASSUMPTIONS = ASSUME


def wild(rng, a, k, top=1000.0):
    """a with every entry from step k on replaced by unrelated values of the same units."""
    if a is None:
        return None
    b = a.copy()
    for i in range(k, len(b)):
        src = a[int(rng.integers(len(a)))]
        sc = np.max(np.abs(np.where(np.isfinite(a), a, 0)), axis=0)
        b[i] = np.where(np.isfinite(src), src, 0) * rng.uniform(-1, 1) + sc * rng.standard_normal(b[i].shape) \
            * rng.uniform(0.1, 1)
        b[i] *= 10.0 ** rng.uniform(-1, np.log10(top))
    return b


def wild_model(rng, mod, names, k):
    """The model with the named inputs replaced from step k on, still well posed."""
    kw = {}
    for v in names:
        a = getattr(mod, v)
        kw[v] = wild_cov(rng, a, k) if v in "QR" else wild(rng, a, k, 0.7 if v == "A" else 3 if v in "HB" else 1000.0)
        if kw[v] is not None and rng.random() < .25:  # special values later on
            later = np.flatnonzero(np.arange(len(a)) >= k)
            at = later[rng.random(len(later)) < gen.pick(rng, .3, 1)]
            kw[v][at] = np.nan if v in "BU" and rng.random() < .5 else 0
    m2 = mod.but(**kw)
    r2 = ref.recursive(m2)
    b2 = ref.bands(m2, r2)
    ref.require(b2)
    sd = np.sqrt(np.diag(m2.P0))
    for H, R, P in zip(m2.H, m2.R, r2.Pp.astype(float)):
        # after noise-free observations nothing but rounding errors of the earlier predictions may be left
        sd = np.maximum(sd, np.sqrt(np.maximum(np.diag(P), 0)))
        S = H @ P @ H.T + R
        top = np.diag(S)
        if not (top > 1e-14 * (np.abs(H) @ sd) ** 2).all() or np.linalg.eigvalsh(S / np.sqrt(np.outer(top, top)))[0] < 1e-11:
            raise Skip("innovation covariance cancels")
    return m2, r2, b2


def wild_cov(rng, a, k):
    b = a.copy()
    for i in range(k, len(b)):
        j = int(rng.integers(len(a)))
        d = np.sqrt(np.maximum(np.diag(a[j]), 0))
        d = np.where(d > 0, d, d.max())
        b[i] = (a[j] + np.outer(d, d) * gen.spd(rng, len(d))) * 10.0 ** rng.uniform(-1, 2)
    return b


def band_cut(bd, k):
    c = ref.Bands()
    c.sx, c.sP, c.tx, c.tP = bd.sx[:k], bd.sP[:k], bd.tx[:k], bd.tP[:k]
    return c


def setup(case, smooth=False, T=None, **kw):
    T = T or max(2, gen.lengths(case.rng, case.index))
    mod = gen.linear(case, T=T, smooth=smooth, **kw)
    r = ref.recursive(mod, smooth)
    bd = ref.bands(mod, r, smooth)
    ref.require(bd)
    return mod, r, bd


def prefix(case):
    """Truncation: only data cut, or everything cut; the smoother's last entry."""
    rng = case.rng
    mod, r, bd = setup(case, smooth=True)
    f = gen.form(case, mod)
    x, P, _ = run_kf(case, mod, f)
    for k in {1, int(rng.integers(1, mod.T)), mod.T - 1, mod.T}:
        b = band_cut(bd, k)
        short = mod.cut(0, k)
        y, C, _ = run_kf(case, short, f)
        agree(case, f"prefix of {k} steps", y, C, x[:k], P[:k], b, widen=2)
        kf = case.lib("KalmanFilter()", gen.kf_from, KF, gen.plain_kf(mod))
        y, C = case.lib("filter", kf.filter, mod.Z[:k], None if mod.U is None else mod.U[:k])
        shapes(case, "filter of a prefix", y, C, k, mod.n)
        agree(case, f"first {k} observations with the whole model", y, C, x[:k], P[:k], b, widen=2)
        call = case.lib("smooth", kf.smooth, mod.Z[:k], None if mod.U is None else mod.U[:k])
        agree(case, "last smoothed estimate of a prefix", call[0][-1:], call[1][-1:], x[k - 1:k], P[k - 1:k],
              one(b, k - 1), widen=2)
        case.count("prefixes_checked")
    case.nontrivial = True


def one(b, k):
    c = ref.Bands()
    c.sx, c.sP, c.tx, c.tP = (a[k:k + 1] for a in (b.sx, b.sP, b.tx, b.tP))
    return c


def future(case):
    """Everything after step k replaced by unrelated values."""
    rng = case.rng
    mod, r, bd = setup(case)
    f = gen.form(case, mod)
    x, P, _ = run_kf(case, mod, f)
    for _ in range(3):
        k = int(rng.integers(1, mod.T))
        names = [v for v in "AHBUZQR" if rng.random() < 0.7] or ["Z"]
        try:
            m2 = wild_model(rng, mod, names, k)[0]
        except Skip:
            case.count("ill_posed_futures_dropped")
            continue
        y, C, _ = run_kf(case, m2, f)
        agree(case, f"steps before {k} after replacing later {'/'.join(names)}", y[:k], C[:k], x[:k], P[:k],
              band_cut(bd, k), widen=2)
        case.count("futures_replaced")
        case.nontrivial = True
    if not case.nontrivial:
        raise Skip("no well-posed future found")


def surplus(case):
    """Model entries (and controls) beyond the last observation change nothing."""
    rng = case.rng
    smooth = rng.random() < 0.6
    mod, r, bd = setup(case, smooth=smooth)
    T = mod.T
    want = {"filter": run_kf(case, mod)[:2]}
    agree(case, "against oracle", *want["filter"], r.x, r.P, bd)
    if smooth:
        want["smooth"] = run_kf(case, mod, call="smooth")[:2]
    d = gen.plain_kf(mod)
    some = [k for k in "ABHQRU" if d[k] is not None]
    for names in (some, [gen.pick(rng, *some)], [k for k in some if rng.random() < .5]):
        e = dict(d)
        for k in names:
            more = int(rng.integers(1, 2 * T + 3))
            tail = d[k][rng.integers(0, T, more)] * rng.uniform(-3, 3) + rng.standard_normal((more,) + d[k].shape[1:])
            e[k] = np.concatenate([d[k], tail])
        kf = case.lib("KalmanFilter()", gen.kf_from, KF, e)
        for call in want:
            out = case.lib(call, getattr(kf, call), e["Z"], e["U"])
            what = f"{call} with surplus {'/'.join(names)}"
            shapes(case, what, *out, T, mod.n)
            agree(case, what, *out, *want[call], bd, smooth=call == "smooth", widen=2)
            case.count("surplus_runs")
        case.check(len(kf.kalman_gains) == T * len(want), f"surplus {names}: {len(kf.kalman_gains)} gains")
    case.nontrivial = True


def ekf_surplus(case):
    rng = case.rng
    mod, r, b = ekf_setup(case)
    r, b = ekf_bands(mod, True)
    T = mod.T
    want = {c: run_ekf(case, mod, call=c)[:2] for c in ("filter", "smooth")}
    d = gen.plain_nl(mod)
    some = [k for k in "QRU" if d[k] is not None]
    for names in (some, [gen.pick(rng, *some)]):
        e = dict(d)
        for k in names:
            more = int(rng.integers(1, 2 * T + 3))
            tail = d[k][rng.integers(0, T, more)] * rng.uniform(-3, 3) + rng.standard_normal((more,) + d[k].shape[1:])
            e[k] = np.concatenate([d[k], tail])
        o = case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, e, mod)
        for call in want:
            out = case.lib(call, getattr(o, call), e["Z"], e["U"])
            what = f"EKF {call} with surplus {'/'.join(names)}"
            shapes(case, what, *out, T, mod.n)
            s = call == "smooth"
            if s and not (steps(b.stx) & steps(b.stP)).any():
                continue
            agree(case, what, *out, *want[call], b, smooth=s, widen=2)
            case.count("surplus_runs")
        case.check(len(o.kalman_gains) == 2 * T, f"EKF surplus {names}: {len(o.kalman_gains)} gains")
    case.nontrivial = True


def resume(case):
    """A new filter started from the returned mean and covariance."""
    rng = case.rng
    mod, r, bd = setup(case)
    f = gen.form(case, mod)
    x, P, _ = run_kf(case, mod, f)
    cuts = sorted({int(v) for v in rng.integers(1, mod.T, int(rng.integers(1, 4)))})
    gx, gP = [], []
    px, pP, a = mod.x0, mod.P0, 0
    for k in cuts + [mod.T]:
        part = mod.cut(a, k).but(x0=np.array(px), P0=np.array(pP))
        y, C, _ = run_kf(case, part, gen.Form(laid=rng.random() < .3))
        gx.append(y)
        gP.append(C)
        px, pP, a = y[-1], C[-1], k
        case.count("resumptions")
    agree(case, f"resumed at {cuts}", np.concatenate(gx), np.concatenate(gP), x, P, bd, widen=2)
    agree(case, "resumed against oracle", np.concatenate(gx), np.concatenate(gP), r.x, r.P, bd)
    case.nontrivial = True


def effect(case):
    """One input changed at one step: the run follows the oracle, and does change there."""
    rng = case.rng
    mod, r, bd = setup(case, control="both")
    k = int(rng.integers(mod.T))
    v = gen.pick(rng, "A", "B", "U", "H", "Q", "R", "Z")
    a = getattr(mod, v).copy()
    a[k] = getattr(wild_model(rng, mod, [v], k)[0], v)[k]
    m2 = mod.but(**{v: a})
    r2 = ref.recursive(m2)
    b2 = ref.bands(m2, r2)
    ref.require(b2)
    y, C, _ = run_kf(case, m2, gen.form(case, m2))
    agree(case, f"{v} changed at step {k}", y, C, r2.x, r2.P, b2)
    x, P, _ = run_kf(case, mod)
    diff = max(float(np.max(np.abs(r2.x[k] - r.x[k]) / bd.sx[k])), float(np.max(np.abs(r2.P[k] - r.P[k]) / bd.sP[k])))
    if diff > 1e-3 and bd.tx[k] < 1e-6 and b2.tx[k] < 1e-6:
        got = max(float(np.max(np.abs(y[k] - x[k]) / bd.sx[k])), float(np.max(np.abs(C[k] - P[k]) / bd.sP[k])))
        case.check(got > 1e-4, f"changing {v} at step {k} had no effect there")
        case.count("effects_at_own_step")
    case.tag("changed " + v)
    case.nontrivial = True


def ekf_setup(case):
    T = max(2, gen.lengths(case.rng, case.index))
    return tame(case, gen.nonlinear(case, T=T, smooth=True))


def ekf_prefix(case):
    rng = case.rng
    mod, r, b = ekf_setup(case)
    f = gen.form(case, mod)
    f.x_col = False
    x, P, _ = run_ekf(case, mod, f)
    for k in {1, int(rng.integers(1, mod.T + 1)), max(1, mod.T - 1)}:
        y, C, _ = run_ekf(case, mod.cut(0, k), f)
        agree(case, f"EKF prefix of {k} steps", y, C, x[:k], P[:k], band_cut(b, k), widen=2)
        ekf = case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, gen.plain_nl(mod), mod)
        Z, U = mod.Z[:k], None if mod.U is None else mod.U[:k]
        y, C = case.lib("filter", ekf.filter, Z, U)
        shapes(case, "EKF filter of a prefix", y, C, k, mod.n)
        agree(case, f"EKF first {k} observations with all noises", y, C, x[:k], P[:k], band_cut(b, k), widen=2)
        y, C = case.lib("smooth", ekf.smooth, Z, U)
        agree(case, "EKF last smoothed estimate of a prefix", y[-1:], C[-1:], x[k - 1:k], P[k - 1:k], one(b, k - 1),
              widen=2)
        if k < mod.T:
            kw = dict(Z=wild(rng, mod.Z, k), U=wild(rng, mod.U, k), Q=wild_cov(rng, mod.Q, k),
                      R=wild_cov(rng, mod.R, k))
            if kw["U"] is not None and rng.random() < .3:
                kw["U"][k:] = gen.pick(rng, 0, np.nan)
            if rng.random() < .2:
                kw["Q"][k:] = 0
            names = [v for v in kw if rng.random() < 0.7]
            y, C, _ = run_ekf(case, mod.but(**{v: kw[v] for v in names}), f)
            agree(case, f"EKF steps before {k} after replacing later {'/'.join(names)}", y[:k], C[:k], x[:k], P[:k],
                  band_cut(b, k), widen=2)
            case.count("futures_replaced")
        case.count("prefixes_checked")
    case.nontrivial = mod.T > 1


def ekf_resume(case):
    rng = case.rng
    mod, r, b = ekf_setup(case)
    if mod.T < 2:
        raise Skip("cut to one step")
    x, P, _ = run_ekf(case, mod)
    ekf_filter_check(case, mod, x, P)
    k = int(rng.integers(1, mod.T))
    y, C, _ = run_ekf(case, mod.cut(k, mod.T).but(x0=x[k - 1].copy(), P0=P[k - 1].copy()))
    c = ref.Bands()
    c.sx, c.sP, c.tx, c.tP = b.sx[k:], b.sP[k:], b.tx[k:], b.tP[k:]
    agree(case, f"EKF resumed at {k}", y, C, x[k:], P[k:], c, widen=2)
    case.count("resumptions")
    case.nontrivial = True


def deep(case):
    mod, r, bd = setup(case, T=gen.deep_length(case), **gen.deep_dims(case.rng))
    split(case, mod, bd)


def long(case):
    """Splits far into long runs."""
    rng = case.rng
    mod, r, bd = setup(case, T=int(gen.pick(rng, 120, 300, 700)), big=False, stable=True)
    split(case, mod, bd)


def split(case, mod, bd):
    rng = case.rng
    x, P, _ = run_kf(case, mod)
    k = int(rng.integers(1, mod.T))
    y, C, _ = run_kf(case, mod.cut(0, k))
    agree(case, f"prefix of {k} steps", y, C, x[:k], P[:k], band_cut(bd, k), widen=2)
    y, C, _ = run_kf(case, mod.cut(k, mod.T).but(x0=x[k - 1].copy(), P0=P[k - 1].copy()))
    agree(case, f"resumed at {k}", np.concatenate([x[:k], y]), np.concatenate([P[:k], C]), x, P, bd, widen=2)
    case.nontrivial = True


FAMILIES = {
    "prefix": (200, 3500, prefix),
    "future": (250, 4000, future),
    "surplus": (150, 2500, surplus),
    "ekf_surplus": (100, 1500, ekf_surplus),
    "resume": (250, 4000, resume),
    "effect": (300, 5000, effect),
    "ekf_prefix": (180, 2500, ekf_prefix),
    "ekf_resume": (150, 2000, ekf_resume),
    "long": (16, 250, long),
    "deep": (6, 48, deep),
}
