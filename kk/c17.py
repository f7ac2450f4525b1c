"""C17: every representation of the same numbers gives the same results."""

import itertools

import numpy as np

from kk import gen, ref
from kk.common import (ASSUME, EKF, KF, Skip, agree, ekf_bands, run_kf, steps, tame)

PROP = "C17"
RULE = ("the same numbers handed over as scalars, 1-vectors, 1x1, columns, other dtypes and memory layouts, roles "
        "changed one at a time and all at once, both classes, filter/smooth/predict/update; compared with the "
        "canonical float64 run; shape and dtype of results monitored; non-trivial = representation differs from the "
        "canonical one; distinct by input and form digest")
ASSUMPTIONS = ASSUME


def outputs(case, what, out, T, n):
    x, P = out
    case.check(isinstance(x, np.ndarray) and isinstance(P, np.ndarray), f"{what}: arrays returned")
    case.check(x.shape == (T, n) and P.shape == (T, n, n), f"{what}: shapes {x.shape}, {P.shape} for T={T}, n={n}")
    case.check(x.dtype.kind == "f" and P.dtype.kind == "f", f"{what}: dtypes {x.dtype}, {P.dtype}")
    case.count("result_shapes_checked")


class Canon:
    """Canonical runs of a linear model."""

    def __init__(self, case, mod):
        self.case, self.mod = case, mod
        self.r = ref.recursive(mod, True)
        self.b = ref.bands(mod, self.r, True)
        ref.require(self.b)
        self.f = run_kf(case, mod)[:2]
        self.s = run_kf(case, mod, call="smooth")[:2]
        agree(case, "canonical filter vs oracle", *self.f, self.r.x, self.r.P, self.b)

    def compare(self, what, d, size=None, make=gen.kf_from, cls=KF):
        case, mod = self.case, self.mod
        kf = case.lib(f"{cls.__name__}() ({what})", make, cls, d, size)
        f = case.lib(f"filter ({what})", kf.filter, d["Z"], d["U"])
        outputs(case, f"filter ({what})", f, mod.T, mod.n)
        agree(case, f"filter ({what})", *f, *self.f, self.b, widen=2)
        s = case.lib(f"smooth ({what})", kf.smooth, d["Z"], d["U"])
        outputs(case, f"smooth ({what})", s, mod.T, mod.n)
        if (steps(self.b.stx) & steps(self.b.stP)).any():
            agree(case, f"smooth ({what})", *s, *self.s, self.b, smooth=True, widen=2)
        case.count("representations_compared")


def uniform(c, d, make, cls, label):
    """Every array of the model in one and the same dtype."""
    for t in (np.float32, np.int64, np.int32, np.int16):
        e = {k: v if v is None else v.astype(np.int64 if k == "P0" and t == np.int16 else
                                             np.float64 if k == "P0" and t == np.float32 else t)
             for k, v in d.items()}
        c.compare(f"{label}everything {np.dtype(t).name}", e, None, make, cls)
        c.case.tag(f"{label}everything {np.dtype(t).name}")
    # in single precision throughout, initial covariance included: to single precision
    e = {k: v if v is None else v.astype(np.float32) for k, v in d.items()}
    kf = c.case.lib(f"{cls.__name__}() (all single)", make, cls, e, None)
    for call, want, sx, sP, tx, tP in (("filter", c.f, c.b.sx, c.b.sP, c.b.tx, c.b.tP),
                                       ("smooth", c.s, c.b.ssx, c.b.ssP, c.b.stx, c.b.stP)):
        out = c.case.lib(f"{call} (all single)", getattr(kf, call), e["Z"], e["U"])
        outputs(c.case, f"{label}{call} (all single)", out, c.mod.T, c.mod.n)
        # rounding envelope of single precision: 2**29 times the one measured in double
        tx, tP = (1e-4 + (t - ref.FLOOR) * 2.0**29 for t in (tx, tP))
        ok = steps(tx) & steps(tP)
        if ok.any():
            c.case.close(f"{label}{call} mean (all single)", out[0][ok], want[0][ok], tx[ok][:, None], sx[ok])
            c.case.close(f"{label}{call} covariance (all single)", out[1][ok], want[1][ok], tP[ok][:, None, None],
                         sP[ok])
            c.case.count("single_precision_models", 1)


def ekf_dtypes(case):
    """The extended filter on linear models, every array in another dtype."""
    mod = gen.grid(case, step=1.0, smooth=True)
    mod.H = np.tile(mod.H[0], (mod.T, 1, 1))
    c = Canon(case, mod)
    nl = gen.as_nonlinear(mod)
    d = gen.plain_nl(nl)

    def make(cls, e, size):
        return gen.ekf_from(cls, e, nl)
    c.compare("EKF, canonical", d, None, make, EKF)
    for role in d:
        e = dict(d)
        e[role] = gen.retype(case.rng, role, d[role])
        c.compare(f"EKF, {role} as {e[role].dtype}", e, None, make, EKF)
    uniform(c, d, make, EKF, "EKF, ")
    case.seen("ekf")
    case.nontrivial = True


ROLES = ["A", "B", "H", "Q", "R", "x0", "P0", "U", "Z"]


def deep(case):
    """Long runs with each role in a non-canonical layout or dtype."""
    rng = case.rng
    mod = gen.grid(case, smooth=True, T=gen.deep_length(case), n=1, m=int(gen.pick(rng, 1, 2)))
    mod.A = np.zeros_like(mod.A) + (rng.random(mod.A.shape) < .5)
    c = Canon(case, mod)
    d = gen.plain_kf(mod)
    c.compare("typed", {k: gen.retype(rng, k, a) for k, a in d.items()})
    c.compare("other layouts", {k: gen.lay(rng, a) for k, a in d.items()})
    case.nontrivial = True


def dtypes(case):
    """Each role in turn, then all, in another dtype holding the same values."""
    rng = case.rng
    mod = gen.grid(case, step=1.0, smooth=True)
    if rng.random() < 0.25:
        mod.Z = (mod.Z > 0) * 1.0
    elif rng.random() < 0.3:
        mod.Z = np.abs(mod.Z)
    c = Canon(case, mod)
    d = gen.plain_kf(mod)
    used = []
    for role in ROLES:
        if d[role] is None:
            continue
        e = dict(d)
        e[role] = gen.retype(rng, role, d[role])
        used.append(f"{role}:{e[role].dtype}")
        c.compare(f"{role} as {e[role].dtype}", e)
        case.tag(f"dtype {e[role].dtype}")
    e = {k: None if v is None else gen.retype(rng, k, v) for k, v in d.items()}
    used += [f"{k}:{v.dtype}" for k, v in e.items() if v is not None]
    c.compare("mixed dtypes", e)
    uniform(c, d, gen.kf_from, KF, "")
    case.desc["dtypes"] = used
    case.seen(repr(used))
    case.nontrivial = True


def layouts(case):
    """Each role in turn, then all, in another memory layout."""
    rng = case.rng
    mod = gen.linear(case, smooth=True, T=int(rng.integers(1, 9)))
    c = Canon(case, mod)
    d = gen.plain_kf(mod)
    used = []
    for role in ROLES:
        if d[role] is None:
            continue
        kind = gen.pick(rng, "F", "strided", "neg", "ro", "off", "swap")
        e = dict(d)
        e[role] = gen.lay(rng, d[role], kind)
        used.append(f"{role}:{kind}")
        case.tag("layout " + kind)
        c.compare(f"{role} laid out {kind}", e)
    e = {k: gen.lay(rng, v) for k, v in d.items()}
    c.compare("mixed layouts", e)
    # constant models as zero-stride broadcasts
    con = mod.but(**{k: np.tile(getattr(mod, k)[:1], (mod.T,) + (1,) * (getattr(mod, k).ndim - 1))
                     for k in "AHQR"})
    try:
        c2 = Canon(case, con)
    except Skip:
        case.count("broadcast_models_skipped")
    else:
        e = gen.plain_kf(con)
        for k in "AHQR":
            e[k] = np.broadcast_to(e[k][0], e[k].shape)
        c2.compare("broadcast arrays", e)
        case.tag("layout broadcast")
    case.seen(repr(used))
    case.nontrivial = True


def scalars(case):
    """Scalar, 1-vector, 1x1 and column forms of one-observation and one-state models."""
    rng = case.rng
    n = int(gen.pick(rng, 1, 1, 1, 2, 3))
    mod = gen.linear(case, smooth=True, n=n, m=1, T=int(rng.integers(1, 12)), scaled=rng.random() < .2)
    c = Canon(case, mod)
    T = mod.T
    d = gen.plain_kf(mod)
    forms = list(itertools.product("sv", "svm", "vc" if n == 1 else "v", "msv" if n == 1 else "m", [None, n]))
    pickn = len(forms) if case.tier == "thorough" else min(len(forms), 8)
    for i in rng.permutation(len(forms))[:pickn]:
        zf, rf, xf, qf, size = forms[i]
        e = dict(d)
        e["Z"] = {"s": mod.Z[:, 0], "v": mod.Z}[zf]
        e["R"] = {"s": mod.R[:, 0, 0], "v": mod.R[:, 0], "m": mod.R}[rf]
        e["Q"] = {"s": mod.Q[:, 0, 0], "v": mod.Q[:, 0], "m": mod.Q}[qf]
        if xf == "c":
            e["x0"] = mod.x0.reshape(1, 1)
            if mod.U is not None and mod.U.shape[1] > 1:
                e["x0"] = mod.x0  # a column state needs a one-dimensional control
        what = f"Z:{zf} R:{rf} x:{xf} Q:{qf} size:{size}"
        case.tag(f"form Z:{zf}", f"form R:{rf}", f"form x:{xf}", f"form Q:{qf}", f"state_size:{size is not None}")
        c.compare(what, e, size)
    case.seen(repr(pickn))
    case.nontrivial = True
    # one step with scalars
    kf = case.lib("KalmanFilter()", gen.kf_from, KF, d)
    x, P = mod.x0, mod.P0 + np.eye(n)
    outs = []
    for z, r in itertools.product((mod.Z[0], float(mod.Z[0, 0]), mod.Z[0, 0]), (mod.R[0], float(mod.R[0, 0, 0]), mod.R[0, 0])):
        outs.append(case.lib("update (scalar forms)", kf.update, mod.H[0], x, P, z, r))
    for o in outs[1:]:
        case.close("update mean (scalar forms)", o[0], outs[0][0], 1e-10, np.max(np.abs(outs[0][0])) + np.max(np.abs(x)) + 1e-300)
        case.close("update covariance (scalar forms)", o[1], outs[0][1], 1e-8, np.max(np.abs(P)))
    case.count("representations_compared", len(outs))


def constant_column(case):
    """One state, column mean, with and without controls of width one."""
    rng = case.rng
    T = int(rng.integers(1, 15))
    mod = gen.linear(case, smooth=True, n=1, m=1, p=1, T=T, control=gen.pick(rng, "none", "both", "noU", "noB", "nanrows"))
    c = Canon(case, mod)
    d = gen.plain_kf(mod)
    e = dict(d, x0=mod.x0.reshape(1, 1))
    c.compare("column mean", e)
    e = dict(e, Z=mod.Z[:, 0], R=mod.R[:, 0, 0], Q=mod.Q[:, 0, 0])
    c.compare("column mean, scalar data", e)
    case.nontrivial = True


def ekf(case):
    """The extended filter: dtypes, layouts and scalar forms."""
    rng = case.rng
    mod = gen.nonlinear(case, smooth=True, T=int(rng.integers(1, 9)))
    if rng.random() < 0.5:  # values exact in integer types
        n, m = mod.n, mod.m
        mod = mod.but(Z=np.round(mod.Z), x0=np.round(mod.x0), U=None if mod.U is None else np.round(np.nan_to_num(mod.U)),
                      Q=np.array([np.eye(n) * float(rng.integers(1, 3)) for _ in range(mod.T)]),
                      R=np.array([np.eye(m) * float(rng.integers(1, 4)) for _ in range(mod.T)]),
                      P0=np.eye(n) * float(rng.integers(1, 3)))
    mod, _, _ = tame(case, mod)
    r, b = ekf_bands(mod, True)
    d = gen.plain_nl(mod)
    base = {}
    for call in ("filter", "smooth"):
        o = case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, d, mod)
        base[call] = case.lib(call, getattr(o, call), d["Z"], d["U"])

    def compare(what, e):
        o = case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, e, mod)
        for call in ("filter", "smooth"):
            out = case.lib(f"EKF {call} ({what})", getattr(o, call), e["Z"], e["U"])
            outputs(case, f"EKF {call} ({what})", out, mod.T, mod.n)
            s = call == "smooth"
            if s and not (steps(b.stx) & steps(b.stP)).any():
                continue
            agree(case, f"EKF {call} ({what})", *out, *base[call], b, smooth=s, widen=2)
        case.count("representations_compared")
    for role in ("Q", "R", "x0", "P0", "U", "Z"):
        if d[role] is None:
            continue
        e = dict(d)
        if exact(d[role]) and role == "x0":  # single precision would be the user functions' rounding
            e[role] = d[role].astype(gen.pick(rng, np.int64, np.int32))
        elif exact(d[role]):
            e[role] = gen.retype(rng, role, d[role])
        case.tag(f"EKF dtype {e[role].dtype}")
        e[role] = gen.lay(rng, e[role])
        compare(f"{role} as {e[role].dtype}", e)
    if mod.m == 1:
        for zf, rf in itertools.product((mod.Z, mod.Z[:, 0]), (mod.R, mod.R[:, 0, 0], mod.R[:, 0])):
            compare(f"Z {zf.shape} R {rf.shape}", dict(d, Z=zf, R=rf))
            case.tag("EKF scalar forms")
    if mod.n == 1:
        compare("scalar Q", dict(d, Q=mod.Q[:, 0, 0]))
    case.seen("ekf")
    case.nontrivial = True


def exact(a):
    return np.all(np.isfinite(a)) and np.all(a == np.round(a)) and np.all(np.abs(a) < 2**20)


def whole(case):
    """Whole numbers in narrow, unsigned and boolean types, close to what these can hold."""
    rng = case.rng
    t = np.dtype(gen.pick(rng, "u1", "u1", "u2", "u4", "u8", "i1", "i2", "i4", "?"))
    top = {"b": 1, "u": 15, "i": 11}[t.kind] if t.itemsize == 1 else 190
    n, m, p, T = (int(rng.integers(1, 4)) for _ in range(4))

    def g(*shape, hi=top, thin=.5):
        return rng.integers(0, hi + 1, shape) * (rng.random(shape) < thin) * 1.0

    def cov(k):
        if t.kind == "b":
            return np.eye(k)
        a = np.tril(rng.integers(0, 3, (k, k))) * 1.0
        np.fill_diagonal(a, rng.integers(1, 6, k))
        return a @ a.T
    still = rng.random() < .5
    A = np.array([np.eye(n)[rng.permutation(n)] if still else g(n, n, hi=min(top, 3)) for _ in range(T)])
    H = np.array([g(m, n)] * T) if not still else np.array([np.eye(n)[rng.integers(0, n, m)]] * T)
    control = rng.random() < .6
    mod = gen.Lin(A=A, B=g(T, n, p) if control else None, H=H, Q=np.array([cov(n) for _ in range(T)]),
                  R=np.array([cov(m) for _ in range(T)]), x0=g(n, thin=.9), P0=cov(n), U=g(T, p) if control else None,
                  Z=g(T, m, thin=.9))
    case.seen(*mod.arrays(), str(t))
    case.desc.update(n=n, m=m, T=T, dtype=str(t), control=control)
    case.tag(f"whole numbers as {t.name}")
    c = Canon(case, mod)
    d = gen.plain_kf(mod)
    typed = {k: v if v is None or rng.random() < .1 else v.astype(t) for k, v in d.items()}
    c.compare(f"everything {t.name}", typed)
    kf = case.lib("KalmanFilter()", gen.kf_from, KF, typed)
    e = typed
    steps_ = [("predict", (e["A"][0], e["x0"], None if e["B"] is None else e["B"][0], None if e["U"] is None else e["U"][0],
                           e["P0"], e["Q"][0])), ("update", (e["H"][0], e["x0"], e["P0"], e["Z"][0], e["R"][0]))]
    if still:  # the extended filter, its functions picking components
        pa, ph = A[0].argmax(1), H[0].argmax(1)
        ca, ch = (int(rng.integers(1, 2 if t.kind == "b" else 4)) for _ in "ah")
        mod.A[:], mod.H[:] = ca * A[0], ch * H[0]
        ja, jh = (a.astype(t if rng.random() < .6 else float) for a in (mod.A[0], mod.H[0]))
        mod.B = mod.U = None
        c = Canon(case, mod)
        nl = gen.Nl(f=lambda x, u, /: x[pa] * ca, h=lambda x, /: x[ph] * ch, jac_a=lambda x, u, /: ja,
                    jac_h=lambda x, /: jh,
                    Q=mod.Q, R=mod.R, x0=mod.x0, P0=mod.P0, U=None, Z=mod.Z, m=m, scalar_h=False, fam="picking")
        d2 = gen.plain_nl(nl)
        typed2 = {k: v if v is None or rng.random() < .1 else v.astype(t) for k, v in d2.items()}
        c.compare(f"EKF, everything {t.name}", typed2, None, lambda cls, q, size: gen.ekf_from(cls, q, nl), EKF)
        ekf = case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, typed2, nl)
        u0 = np.full(m, np.nan)
        steps_ += [("EKF predict", (e["x0"], u0, e["P0"], e["Q"][0])), ("EKF update", (e["x0"], e["P0"], e["Z"][0], e["R"][0]))]
    for what, args in steps_:
        obj = ekf if what.startswith("EKF") else kf
        call = what.split()[-1]
        want = case.lib(what, getattr(obj, call), *[a if a is None else np.array(a, float) for a in args])
        got = case.lib(f"{what} ({t.name})", getattr(obj, call), *args)
        for a, w, k in zip(got, want, ("mean", "covariance")):
            case.close(f"{what} {k} ({t.name})", a, w, 1e-9, np.max(np.abs(w)) + np.max(np.abs(args[-2] if k == "mean" else e["P0"])))
    case.nontrivial = True


FAMILIES = {
    "whole": (150, 2500, whole),
    "dtypes": (180, 3000, dtypes),
    "layouts": (180, 3000, layouts),
    "scalars": (180, 2500, scalars),
    "column": (80, 1000, constant_column),
    "deep": (4, 32, deep),
    "ekf": (180, 2500, ekf),
    "ekf_dtypes": (150, 2500, ekf_dtypes),
}
