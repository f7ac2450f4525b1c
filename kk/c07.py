"""C07: every way of leaving the control out equals zero control at exactly those steps."""

import numpy as np

from kk import c03, gen, ref
from kk.common import (ASSUME, EKF, KF, Skip, agree, ekf_filter_check, run_ekf, run_kf, tame)

PROP = "C07"
RULE = ("every combination of missing B / missing U / NaN rows / NaN slices / None in predict, over random and "
        "integer-typed models, against an oracle with the control contribution zeroed at those steps and against the "
        "library itself given explicit zeros; control arguments received by user callbacks are logged; non-trivial = "
        "control missing at some step or present and non-zero; distinct by input digest")
ASSUMPTIONS = ASSUME

MODES = ["none", "noB", "noU", "nanrows", "nanB", "both"]


def zeroed(mod):
    """The same model with explicit zero control where it is missing."""
    p = mod.B.shape[2] if mod.B is not None else (mod.U.shape[1] if mod.U is not None else 1)
    B = np.zeros((mod.T, mod.n, p)) if mod.B is None else mod.B.copy()
    U = np.zeros((mod.T, p)) if mod.U is None else mod.U.copy()
    for k in range(mod.T):
        if mod.B is None or mod.U is None or np.isnan(B[k]).all() or np.isnan(U[k]).all():
            B[k] = 0 if np.isnan(B[k]).any() else B[k]
            U[k] = 0
    return mod.but(B=B, U=U)


def count_missing(case, mod):
    miss = sum(not isinstance(mod.control(k), tuple) for k in range(mod.T))
    case.count("steps_without_control", miss)
    case.count("steps_with_control", mod.T - miss)
    return miss


def compare(case, mod, smooth, f):
    r = ref.recursive(mod, smooth)
    bd = ref.bands(mod, r, smooth)
    ref.require(bd)
    z = zeroed(mod)
    x, P, _ = run_kf(case, mod, f)
    agree(case, "filtered (control left out)", x, P, r.x, r.P, bd)
    y, C, _ = run_kf(case, z)
    agree(case, "filtered (left out vs zero control)", x, P, y, C, bd, widen=2)
    if smooth:
        x, P, _ = run_kf(case, mod, f, call="smooth")
        agree(case, "smoothed (control left out)", x, P, r.xs, r.Ps, bd, smooth=True)
        y, C, _ = run_kf(case, z, call="smooth")
        agree(case, "smoothed (left out vs zero control)", x, P, y, C, bd, smooth=True, widen=2)
    count_missing(case, mod)
    case.nontrivial = True


def batch(case):
    mode = MODES[case.index % len(MODES)]
    smooth = case.rng.random() < 0.6
    mod = gen.linear(case, control=mode, smooth=smooth)
    compare(case, mod, smooth, gen.form(case, mod))


def deep(case):
    """Controls missing far into long runs."""
    mode = gen.pick(case.rng, "nanrows", "nanB", "noU", "nanrows")
    smooth = case.rng.random() < 0.5
    mod = gen.linear(case, T=gen.deep_length(case), control=mode, smooth=smooth, **gen.deep_dims(case.rng))
    if mode == "nanrows" and case.rng.random() < .5:  # one missing row only
        miss = int(case.rng.integers(mod.T))
        mod.U = np.where(np.isnan(mod.U), case.rng.standard_normal(mod.U.shape), mod.U)
        mod.U[miss] = np.nan
    compare(case, mod, smooth, gen.form(case, mod))


def typed(case):
    """Integer, boolean and single-precision data with a control left out."""
    rng = case.rng
    mode = gen.pick(rng, "none", "none", "noB", "noU", "both")
    mod = gen.grid(case, control=mode, step=1.0, smooth=True)
    if rng.random() < 0.15:
        mod.Z = (mod.Z > 0) * 1.0
    compare(case, mod, True, gen.form(case, mod, typed=True))


def all_int(case):
    """Every array an integer array: the missing marker cannot borrow their dtype."""
    rng = case.rng
    mod = gen.grid(case, control=gen.pick(rng, "none", "noB", "noU"), step=1.0, smooth=True)
    it = gen.pick(rng, np.int64, np.int64, np.int32)
    r = ref.recursive(mod, True)
    bd = ref.bands(mod, r, True)
    ref.require(bd)
    zt = it
    if mod.m == 1 and rng.random() < .5:
        Z = mod.Z[:, 0]
    else:
        Z = mod.Z
    if rng.random() < 0.2:
        Z, zt = Z, np.int16
    kf = case.lib("KalmanFilter()", KF, A=mod.A.astype(it), xk=mod.x0.astype(it),
                  B=None if mod.B is None else mod.B.astype(it), Pk=mod.P0.astype(np.int64), H=mod.H.astype(it),
                  Q=mod.Q.astype(it), R=mod.R.astype(it))
    U = None if mod.U is None else mod.U.astype(it)
    x, P = case.lib("filter", kf.filter, Z.astype(zt), U)
    agree(case, "filtered (all integer)", x, P, r.x, r.P, bd)
    x, P = case.lib("smooth", kf.smooth, Z.astype(zt), U)
    agree(case, "smoothed (all integer)", x, P, r.xs, r.Ps, bd, smooth=True)
    case.tag(f"integer {np.dtype(it).name}")
    case.nontrivial = True


def predict(case):
    """One prediction step with the control left out in every way."""
    rng = case.rng
    n, _, p = gen.dims(rng)
    ints = rng.random() < 0.4
    if ints:
        A, x = rng.integers(-3, 4, (n, n)), rng.integers(-3, 4, n)
        P, Q = gen.spd(rng, n), np.eye(n, dtype=int)
        B, u = rng.integers(-3, 4, (n, p)), rng.integers(-3, 4, p)
    else:
        A, x, P, Q = gen.trans(rng, n), rng.standard_normal(n), gen.spd(rng, n), gen.spd(rng, n)
        B, u = rng.standard_normal((n, p)), rng.standard_normal(p)
    own = dict(A=np.array([A] * 2), xk=x, B=np.array([B] * 2) if rng.random() < .5 else None, Pk=P,
               H=np.ones((2, 1, n)), Q=np.array([Q] * 2), R=np.ones((2, 1, 1)))
    kf = case.lib("KalmanFilter()", KF, **own)
    case.seen(A, x, P, Q, B, u)
    case.desc.update(n=n, p=p, ints=ints)

    def nan(a):
        return np.full(a.shape, np.nan)
    ways = dict(none=(None, None), noneB=(None, u), noneU=(B, None), nanB=(nan(B), u), nanU=(B, nan(u)),
                nanboth=(nan(B), nan(u)), nanBnone=(nan(B), None), noneBnan=(None, nan(u)),
                nan_n=(np.full((n, n), np.nan), np.full(n, np.nan)),
                zero=(B, np.zeros(p)), given=(B, u), part=(B, np.where(np.arange(p) == 0, u, 0)))
    mag = np.abs(A) @ np.abs(x) + np.abs(B) @ np.abs(u) + 1e-30
    want = A @ x
    for w, (b, v) in ways.items():
        c = B @ v if w in ("given", "part") else 0
        gx, gP = case.lib(f"predict ({w})", kf.predict, Ak=A, xk=x, Bk=b, uk=v, Pk=P, Qk=Q)
        case.close(f"predict mean ({w})", gx, want + c, 1e-11, mag)
        case.close(f"predict covariance ({w})", gP, A @ P @ A.T + Q, 1e-11,
                   np.abs(A) @ np.abs(P) @ np.abs(A).T + np.abs(Q) + 1e-30)
        case.count("ways_checked")
    case.nontrivial = True


def impulse(case):
    """A control present at one step only acts at that step, by its full amount."""
    rng = case.rng
    mod = gen.linear(case, control="both", smooth=True)
    k = int(rng.integers(mod.T))
    how = gen.pick(rng, "zero elsewhere", "nan elsewhere", "partly zero")
    U = np.zeros_like(mod.U) if how != "nan elsewhere" else np.full_like(mod.U, np.nan)
    U[k] = mod.U[k] * 10 + 1
    if how == "partly zero":
        U[k, rng.integers(U.shape[1])] = 0
        if not U[k].any():
            U[k, 0] = 0
    mod = mod.but(U=U)
    case.seen(U)
    case.tag("impulse " + how)
    case.desc["impulse"] = k
    compare(case, mod, True, gen.Form())


def ekf_log(case):
    """What the callbacks of the extended filter receive as control."""
    rng = case.rng
    mod = gen.nonlinear(case, smooth=True, control=bool(case.index % 2))
    mod, _, _ = tame(case, mod)
    f = gen.form(case, mod)
    f.x_col = False
    call = gen.pick(rng, "filter", "smooth")
    got = []

    def spy(fn):
        def g(x, u, /):
            got.append(u if u is None else (type(u), np.array(u), getattr(u, "dtype", None)))
            return fn(x, u)
        return g

    d = gen.hand_over_nl(case, mod, f)
    ints = mod.U is None and rng.random() < 0.5
    if ints:
        t = gen.pick(rng, np.int64, np.int32, np.uint8, np.int8)
        mod = mod.but(Z=np.round(np.clip(mod.Z, 0, 50)))
        mod, _, _ = tame(case, mod)
        d["Z"] = d["Z"][:mod.T]
        d["Z"] = (mod.Z[:, 0] if d["Z"].ndim == 1 else mod.Z).astype(t)
        case.tag(f"integer observations {np.dtype(t).name}")
    case.tag(f"callback log: {call}", "control" if mod.U is not None else "no control")
    spied = mod.but(f=spy(mod.f), jac_a=spy(mod.jac_a))
    ekf = case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, d, spied)
    out = case.lib(call, getattr(ekf, call), d["Z"], d["U"])
    log = list(got)
    shape = np.shape(d["Z"][0])
    for u in log:
        case.check(u is not None, "a callback received None as control")
        typ, val, dt = u
        if mod.U is None:
            case.check(dt is not None and dt.kind == "f", f"missing control handed over as {typ.__name__}, not float")
            case.check(val.shape == shape, f"missing control of shape {val.shape}, observation step {shape}")
            case.check(bool(np.isnan(val).all()), f"missing control handed over as {val.tolist()}, not NaN")
        else:
            case.check(any(np.array_equal(val, row, equal_nan=True) for row in mod.U),
                       f"a callback received a control that is no row of U: {val.tolist()}")
    case.count("control_arguments_logged", len(log))
    if call == "filter":
        ekf_filter_check(case, mod, *out)
        if mod.T <= 60:
            spy2, log2 = c03.logged(case, mod)
            x, P, _ = run_ekf(case, spy2)
            c03.match(case, {k: list(v) for k, v in log2.items()}, mod, x, *c03.points(mod, x))
    case.nontrivial = True


def ekf_zero(case):
    """A user model that treats NaN as zero control: left out equals zero control."""
    rng = case.rng
    mod = gen.nonlinear(case, smooth=True, control=True)
    U = mod.U.copy()
    U[rng.random(mod.T) < 0.5] = np.nan
    if rng.random() < 0.3:
        U[:] = np.nan
    mod = mod.but(U=U)
    mod, r, b = tame(case, mod)
    z = mod.but(U=np.where(np.isnan(mod.U), 0, mod.U))
    pairs = [mod, z] + ([mod.but(U=None)] if np.isnan(mod.U).all() else [])
    for call in ("filter", "smooth"):
        runs = [run_ekf(case, q, call=call)[:2] for q in pairs]
        if call == "filter":
            for y in runs[1:]:
                agree(case, "EKF left out vs zero control", *runs[0], *y, b, widen=2)
        else:
            from kk.common import ekf_bands
            r, b = ekf_bands(mod, True)
            ok = np.asarray(b.stx).max() < 1e-4 and np.asarray(b.stP).max() < 1e-4
            if not ok:
                raise Skip("ill-conditioned smoother")
            for y in runs[1:]:
                agree(case, "EKF smoother left out vs zero control", *runs[0], *y, b, smooth=True, widen=2)
    case.seen(U)
    case.nontrivial = True


FAMILIES = {
    "batch": (600, 10000, batch),
    "typed": (250, 4000, typed),
    "all_int": (200, 3000, all_int),
    "predict": (200, 3000, predict),
    "impulse": (150, 2000, impulse),
    "ekf_log": (300, 4000, ekf_log),
    "deep": (4, 48, deep),
    "ekf_zero": (120, 1500, ekf_zero),
}
