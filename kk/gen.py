"""Random models: linear-Gaussian and nonlinear, in many shapes and forms."""

import numpy as np

DIMS = [1, 2, 3, 4, 1, 2, 3, 5, 2, 6, 3, 4, 7, 2, 8, 1, 3, 5, 9, 12]


class Lin:
    """A linear-Gaussian model with data, canonical float64 arrays.

    A (T,n,n) B (T,n,p) or None, H (T,m,n), Q (T,n,n), R (T,m,m), x0 (n,),
    P0 (n,n), U (T,p) or None, Z (T,m). A NaN row of U or NaN slice of B means
    no control at that step.
    """

    def __init__(self, **kw):
        self.__dict__.update(kw)

    @property
    def T(self):
        return len(self.Z)

    @property
    def n(self):
        return len(self.x0)

    @property
    def m(self):
        return self.H.shape[1]

    def control(self, k):
        """The control contribution at step k (zero vector if missing)."""
        if self.B is None or self.U is None:
            return np.zeros(self.n)
        b, u = self.B[k], self.U[k]
        if np.isnan(b).all() or np.isnan(u).all():
            return np.zeros(self.n)
        return b, u

    def but(self, **kw):
        d = dict(self.__dict__)
        d.update(kw)
        return Lin(**d)

    def cut(self, a, b):
        s = slice(a, b)
        return self.but(A=self.A[s], B=None if self.B is None else self.B[s], H=self.H[s],
                        Q=self.Q[s], R=self.R[s], U=None if self.U is None else self.U[s],
                        Z=self.Z[s])

    def arrays(self):
        return [self.A, self.B, self.H, self.Q, self.R, self.x0, self.P0, self.U, self.Z]


def pick(rng, *opts):
    return opts[int(rng.integers(len(opts)))]


def dims(rng, big=True):
    n = int(pick(rng, *DIMS))
    m = int(pick(rng, *DIMS))
    p = int(pick(rng, 1, 2, 3, 1, 2, 4, 5))
    if not big:
        n, m = min(n, 4), min(m, 4)
    return n, m, p


def orth(rng, n):
    q, r = np.linalg.qr(rng.standard_normal((n, n)))
    return q * np.sign(np.diag(r))


def spd(rng, n, spread=None, kind=None):
    """Symmetric positive (semi)definite matrix."""
    kind = kind or pick(rng, "dense", "dense", "dense", "diag", "corr")
    spread = rng.uniform(0, 2) if spread is None else spread
    d = 10.0 ** rng.uniform(-spread, 0, n)
    if kind == "diag":
        return np.diag(d)
    if kind == "corr" and n > 1:
        s = np.sqrt(d)
        rho = rng.uniform(0.3, 0.95)
        c = np.full((n, n), rho) + (1 - rho) * np.eye(n)
        return sym(c * np.outer(s, s))
    if kind == "zero":
        return np.zeros((n, n))
    if kind == "rank":
        r = int(rng.integers(1, n)) if n > 1 else 0
        v = rng.standard_normal((n, r)) / np.sqrt(max(r, 1))
        return sym(v @ v.T)
    q = orth(rng, n)
    return sym((q * d) @ q.T)


def sym(a):
    return (a + a.T) / 2


def kin(rng, a):
    """A relative of a: the same entries in other places or with other signs (a covariance stays one)."""
    m, n = a.shape
    if m == n and np.array_equal(a, a.T):
        i, s = rng.permutation(n), rng.choice([-1.0, 1.0], n)
        return (a * np.outer(s, s))[np.ix_(i, i)]
    how = pick(rng, "rows", "columns", "transpose", "sign", "signs", "turn")
    if how in ("transpose", "turn") and m == n:
        return a.T.copy() if how == "transpose" else a[::-1, ::-1].copy()
    if how == "rows":
        return a[rng.permutation(m)]
    if how == "columns":
        return a[:, rng.permutation(n)]
    return -a if how == "sign" else a * rng.choice([-1.0, 1.0], a.shape)


def nearby(rng, a, size=None):
    """a with relative changes far below what is visible, but above rounding."""
    size = 10.0 ** rng.uniform(-9, -4) if size is None else size
    if a.ndim == 2 and a.shape[0] == a.shape[1] and np.array_equal(a, a.T):
        d = 1 + size * rng.uniform(-1, 1, len(a))
        return a * np.outer(d, d)
    return a * (1 + size * rng.uniform(-1, 1, a.shape))


def series(rng, T, make, pattern=None, exact=False):
    """T matrices following a time pattern."""
    pattern = pattern or pick(rng, "vary", "vary", "vary", "const", "switch", "periodic",
                              "first", "last", "spike", "kin", *(["near"] if not exact else []),
                              *(["late", "late"] if T >= 40 else []))
    if pattern in ("kin", "near"):
        a, size = make(), 10.0 ** rng.uniform(-9, -4)
        return np.array([kin(rng, a) if pattern == "kin" else nearby(rng, a, size) for _ in range(T)]).reshape(
            (T,) + a.shape), pattern
    if pattern == "vary":
        return np.array([make() for _ in range(T)]), pattern
    a = make()
    out = np.array([a] * T)
    if pattern == "switch" and T > 1:
        s = int(rng.integers(1, T))
        out[s:] = make()
    elif pattern == "late" and T > 1:  # standing for long, then another value, sometimes close, sometimes back again
        s = int(rng.integers(T // 2, T))
        how = pick(rng, "new", "new", "near", "kin") if not exact else "new"
        out[s:] = make() if how == "new" else kin(rng, a) if how == "kin" else nearby(rng, a, 10.0 ** rng.uniform(-3, -1))
        if rng.random() < .3:
            out[int(rng.integers(s, T)):] = a
    elif pattern == "periodic":
        c = [make() for _ in range(int(rng.integers(2, 4)))]
        out = np.array([c[k % len(c)] for k in range(T)])
    elif pattern == "first":
        out[0] = make()
    elif pattern == "last":
        out[-1] = make()
    elif pattern == "spike":
        out[int(rng.integers(T))] = make()
    return out, pattern


def trans(rng, n, stable=False):
    kind = pick(rng, "dense", "dense", "dense", "identity", "diag", "tri", "cv", "rot",
                "singular", "perm", "sparse")
    if stable and kind in ("singular",):
        kind = "dense"
    rho = rng.uniform(0.4, 1.05)
    if kind == "identity":
        return np.eye(n)
    if kind == "diag":
        return np.diag(rng.uniform(-1.1, 1.1, n))
    if kind == "tri":
        return np.triu(rng.standard_normal((n, n)), 1) * 0.4 + np.diag(rng.uniform(0.5, 1.05, n))
    if kind == "cv":
        return np.eye(n) + np.diag(np.full(n - 1, rng.uniform(0.01, 1)), 1) if n > 1 else np.eye(1)
    if kind == "rot":
        return orth(rng, n)
    if kind == "perm":
        return np.eye(n)[rng.permutation(n)]
    a = rng.standard_normal((n, n))
    if kind == "sparse":
        a = a * (rng.random((n, n)) < 0.4) + 0.5 * np.eye(n)
    a *= rho / max(np.max(np.abs(np.linalg.eigvals(a))), 0.3)
    if kind == "singular" and n > 1:
        u, s, v = np.linalg.svd(a)
        s[-1] = 0
        a = (u * s) @ v
    elif kind == "singular":
        a = np.zeros((1, 1))
    return a


def obs(rng, m, n):
    kind = pick(rng, "dense", "dense", "dense", "select", "zero_row", "zero", "dup", "row")
    if kind == "select":
        return np.eye(n)[rng.integers(0, n, m)]
    h = rng.standard_normal((m, n))
    if kind == "zero_row":
        h[int(rng.integers(m))] = 0
    elif kind == "zero" and rng.random() < 0.3:
        h[:] = 0
    elif kind == "dup" and m > 1:
        h[1] = h[0]
    elif kind == "row":
        h = np.outer(rng.uniform(0.5, 1.5, m), rng.standard_normal(n))
    return h


def lengths(rng, idx=None, top=40):
    if idx is not None and idx % 5 == 0:
        return 1 + (idx // 5) % top
    return int(pick(rng, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20, 30))


def exact_sensors(case, mod):
    """mod with noise-free measurements: all or some rows, at all or some steps."""
    rng = case.rng
    R = np.array(mod.R, float)
    T, m = R.shape[0], R.shape[1]
    when = pick(rng, [int(rng.integers(T))], range(T), np.flatnonzero(rng.random(T) < .5))
    for k in when:
        for i in range(m) if rng.random() < .4 else [int(rng.integers(m))]:
            R[k, i] = R[k, :, i] = 0
    case.tag("noise-free sensors")
    return mod.but(R=R)


def linear(case, T=None, n=None, m=None, p=None, control=None, smooth=False, big=True,
           scaled=None, data=None, missing=True, stable=False, patterns=None):
    """A random linear model with data. smooth=True keeps predicted covariances regular."""
    rng = case.rng
    n0, m0, p0 = dims(rng, big)
    n, m, p = n or n0, m or m0, p or p0
    signs = patterns is None and rng.random() < .05  # a steady state in which only signs change
    T = T or (int(rng.integers(50, 120)) if signs else lengths(rng, case.index))
    signs = signs and T >= 30
    pat = (lambda: "const") if signs else (lambda: patterns) if patterns else (lambda: None)
    if patterns is None and not signs and T >= 40 and rng.random() < .4:  # settles, then one or two components change
        late = iter(["late" if v in rng.integers(0, 5, 2) else "const" for v in range(5)])
        pat = lambda: next(late)  # noqa: E731
        case.tag("settles, then changes")
    A, pa = series(rng, T, lambda: trans(rng, n, stable or signs), pat())
    H, ph = series(rng, T, lambda: obs(rng, m, n), pat())
    if signs:
        pa, ph = pick(rng, ("signs", "const"), ("signs", "signs"), ("const", "signs"))
        A = A * rng.choice([-1, 1], (T, 1, 1)) if pa == "signs" else A
        H = H * rng.choice([-1, 1], (T, 1, 1)) if ph == "signs" else H
    qscale = 10.0 ** rng.uniform(-3, 0.5)
    if smooth:
        qk = lambda: spd(rng, n) * qscale + 1e-3 * qscale * np.eye(n)
    else:
        qkind = pick(rng, None, None, None, "zero", "rank", "mixed")
        qk = lambda: qscale * spd(rng, n, kind=pick(rng, "zero", "rank", "dense") if qkind == "mixed" else qkind)
    Q, pq = series(rng, T, qk, pat())
    if smooth and rng.random() < 0.3:
        Q = Q.copy()
        Q[0] = 0
    rscale = 10.0 ** rng.uniform(-2, 1)
    R, pr = series(rng, T, lambda: rscale * spd(rng, m) + 1e-2 * rscale * np.eye(m), pat())
    pkind = pick(rng, None, None, None, "zero", "rank", "huge")
    if smooth and pkind == "rank" and rng.random() < .5:
        pkind = None
    P0 = spd(rng, n, kind=None if pkind == "huge" else pkind) * (
        10.0 ** rng.uniform(3, 6) if pkind == "huge" else 10.0 ** rng.uniform(-1, 1))
    x0 = rng.standard_normal(n) * pick(rng, 0, 1, 1, 10)
    mode = control or pick(rng, "none", "both", "both", "noB", "noU", "nanrows", "nanB")
    if not missing and mode in ("nanrows", "nanB", "noB", "noU"):
        mode = "both"
    B = U = None
    if mode != "none":
        if mode != "noB":
            B, _ = series(rng, T, lambda: rng.standard_normal((n, p)), pat())
        if mode != "noU":
            U = rng.standard_normal((T, p)) * pick(rng, 1, 1, 5)
            if rng.random() < 0.15:
                U[rng.random((T, p)) < 0.5] = 0
        if mode == "nanrows":
            U[rng.random(T) < 0.4] = np.nan
        if mode == "nanB":
            B = B.copy()
            B[rng.random(T) < 0.4] = np.nan
    mod = Lin(A=A, B=B, H=H, Q=Q, R=R, x0=x0, P0=P0, U=U, Z=np.zeros((T, m)))
    dk = data or pick(rng, "sim", "sim", "sim", "wild", "zero", "const", "near")
    if dk == "sim":
        mod.Z = simulate(rng, mod)
    elif dk == "wild":
        mod.Z = rng.standard_normal((T, m)) * 10.0 ** (rng.uniform(6, 13) if rng.random() < .3 else rng.uniform(0, 5))
    elif dk == "const":
        mod.Z = np.tile(rng.standard_normal(m), (T, 1))
    elif dk == "near":
        mod.Z = nearby(rng, np.tile(rng.standard_normal(m), (T, 1, 1)))[:, 0]
        if U is not None and rng.random() < .5:
            mod.U = U = np.where(np.isnan(U), np.nan, nearby(rng, np.tile(rng.standard_normal(p), (T, 1, 1)))[:, 0])
    if scaled is None:
        scaled = rng.random() < 0.35
    if scaled:
        mod = rescale(rng, mod)
    case.seen(*mod.arrays())
    case.desc.update(n=n, m=m, p=p, T=T, control=mode, data=dk, P0=pkind, time=[pa, ph, pq, pr],
                     scaled=bool(scaled))
    case.tag(f"n={n}", f"m={m}", f"T{bucket(T)}", f"control={mode}", f"A:{pa}", f"Q:{pq}", f"data={dk}",
             f"P0={pkind}", "rescaled" if scaled else "unit scale")
    case.count("time_steps", T)
    return mod


def bucket(T):
    for b in (1, 2, 5, 10, 20, 50, 200, 1000, 5000):
        if T <= b:
            return f"<={b}"
    return ">5000"


def simulate(rng, mod):
    x = mod.x0 + half(mod.P0) @ rng.standard_normal(mod.n)
    Z = np.zeros((mod.T, mod.m))
    for k in range(mod.T):
        c = mod.control(k)
        x = mod.A[k] @ x + (c[0] @ c[1] if isinstance(c, tuple) else c)
        x = x + half(mod.Q[k]) @ rng.standard_normal(mod.n)
        Z[k] = mod.H[k] @ x + half(mod.R[k]) @ rng.standard_normal(mod.m)
    return Z


def half(S):
    w, v = np.linalg.eigh(S)
    return v * np.sqrt(np.maximum(w, 0))


def rescale(rng, mod, dx=None, dz=None):
    """Change units by powers of two (exact) of states and observations."""
    span = pick(rng, 4, 10, 20)
    if dx is None:
        dx = 2.0 ** (rng.integers(-span, span + 1, mod.n) if rng.random() < 0.5
                     else np.full(mod.n, int(rng.integers(-30, 31))))
    if dz is None:
        dz = 2.0 ** (rng.integers(-span, span + 1, mod.m) if rng.random() < 0.5
                     else np.full(mod.m, int(rng.integers(-30, 31))))
    i = 1 / dx
    return mod.but(A=mod.A * dx[:, None] * i, B=None if mod.B is None else mod.B * dx[:, None],
                   H=mod.H * dz[:, None] * i, Q=mod.Q * dx[:, None] * dx,
                   R=mod.R * dz[:, None] * dz, x0=mod.x0 * dx, P0=mod.P0 * dx[:, None] * dx,
                   Z=mod.Z * dz)


def grid(case, T=None, n=None, m=None, step=1.0, control=None, smooth=False, top=3):
    """Small models whose entries are multiples of step (exact in any dtype)."""
    rng = case.rng
    n = n or int(rng.integers(1, top + 1))
    m = m or int(rng.integers(1, top + 1))
    p = int(rng.integers(1, 3))
    T = T or int(rng.integers(1, 7))

    def g(*shape, lo=-2, hi=2):
        return rng.integers(lo / step, hi / step + 1, shape) * step

    def cov(k, add=True):
        a = np.tril(g(k, k, lo=-1, hi=1))
        return a @ a.T + (np.eye(k) if add else 0)

    A = series(rng, T, lambda: g(n, n, lo=-1, hi=1), exact=True)[0]
    H = series(rng, T, lambda: g(m, n), exact=True)[0]
    Q = series(rng, T, lambda: cov(n, smooth or rng.random() < .7), exact=True)[0]
    R = series(rng, T, lambda: cov(m), exact=True)[0]
    mode = control or pick(rng, "none", "both", "noB", "noU")
    B = None if mode in ("none", "noB") else series(rng, T, lambda: g(n, p), exact=True)[0]
    U = None if mode in ("none", "noU") else g(T, p)
    mod = Lin(A=A * 1.0, B=None if B is None else B * 1.0, H=H * 1.0, Q=Q * 1.0, R=R * 1.0,
              x0=g(n) * 1.0, P0=cov(n) * 1.0, U=None if U is None else U * 1.0,
              Z=g(T, m, lo=-8, hi=8) * 1.0)
    case.seen(*mod.arrays())
    case.desc.update(n=n, m=m, T=T, control=mode, grid=step)
    case.tag(f"n={n}", f"m={m}", f"T{bucket(T)}", f"control={mode}", "grid values")
    case.count("time_steps", T)
    return mod


# ---------------------------------------------------------------- presentation

LAYOUTS = ["C", "view", "view", "C", "C", "F", "strided", "neg", "ro", "off", "C", "F", "strided", "neg", "ro", "off", "swap"]


def lay(rng, a, kind=None):
    """The same values in another memory layout."""
    if a is None:
        return None
    kind = kind or pick(rng, *LAYOUTS)
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "strided":
        big = np.full(tuple(2 * s for s in a.shape), 7, dtype=a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if kind == "neg":
        r = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[r])[r]
    if kind == "swap":  # the other byte order, strided or not
        b = a.astype(a.dtype.newbyteorder("S"))
        return lay(rng, b, pick(rng, "C", "F", "strided", "neg"))
    if kind == "ro":
        b = a.copy()
        b.setflags(write=False)
        return b
    if kind == "view":  # cut from, or folded out of, an array of other dimensions
        how = pick(rng, "folded", "flat", "slab", "pages")
        if how in ("pages", "slab"):
            b = np.stack([np.ones_like(a), a, np.zeros_like(a)], 0 if how == "pages" else -1)
            return b[1] if how == "pages" else b[..., 1]
        return a.reshape((-1, a.shape[-1]) if how == "folded" and a.size else -1).copy().reshape(a.shape)
    if kind == "off":
        big = np.full(tuple(s + 2 for s in a.shape), 3, dtype=a.dtype)
        v = big[tuple(slice(1, -1) for _ in a.shape)]
        v[...] = a
        return v
    return a.copy()


def intable(a):
    return a is not None and np.all(np.isfinite(a)) and np.all(a == np.round(a)) and np.all(np.abs(a) < 2**20)


def retype(rng, name, a):
    """Another dtype holding the same values (only called for grid models)."""
    if a is None:
        return None
    opts = [np.float64]
    if intable(a):
        opts += [np.int64, np.int64, np.int64]
        if name == "Z" and np.all(a >= 0):
            opts += [np.uint8, np.uint64]
        if name != "P0":
            opts += [np.int32]
        if name == "Z" and set(np.unique(a)) <= {0.0, 1.0}:
            opts += [np.bool_]
    if name != "P0":
        opts += [np.float32]
    return a.astype(pick(rng, *opts))


class Form:
    """How a model is handed to the library."""

    def __init__(self, **kw):
        self.z_scalar = self.r_scalar = self.q_scalar = self.x_col = self.size = False
        self.typed = self.laid = False
        self.extra = 0
        self.__dict__.update(kw)


def form(case, mod, plain=0.4, typed=False):
    rng = case.rng
    if rng.random() < plain and not typed:
        return Form()
    f = Form(laid=rng.random() < 0.5, size=rng.random() < 0.3, typed=typed)
    if mod.m == 1:
        f.z_scalar = rng.random() < 0.6
        f.r_scalar = rng.random() < 0.6
    if mod.n == 1:
        f.q_scalar = rng.random() < 0.6
        f.x_col = mod.m == 1 and rng.random() < 0.5
    f.extra = int(pick(rng, 0, 0, 0, 1, 3))
    case.desc["form"] = dict(f.__dict__)
    for k, v in f.__dict__.items():
        if v:
            case.tag(f"form:{k}")
    return f


def hand_over(case, mod, f):
    """Arrays in the requested form: dict with A,B,H,Q,R,xk,Pk,U,Z (float64 unless typed)."""
    rng = case.rng
    d = dict(A=mod.A, B=mod.B, H=mod.H, Q=mod.Q, R=mod.R, x0=mod.x0, P0=mod.P0, U=mod.U, Z=mod.Z)
    if f.extra:
        for k in "ABHQR":
            if d[k] is not None:
                junk = np.full((f.extra,) + d[k].shape[1:], 1e3) + rng.standard_normal(
                    (f.extra,) + d[k].shape[1:])
                d[k] = np.concatenate([d[k], junk if not f.typed else np.round(junk)])
    if f.z_scalar:
        d["Z"] = d["Z"][:, 0]
    if f.r_scalar:
        d["R"] = d["R"][:, 0, 0]
    if f.q_scalar:
        d["Q"] = d["Q"][:, 0, 0]
    if f.x_col:
        d["x0"] = d["x0"].reshape(1, 1)
    for k in d:
        if d[k] is None:
            continue
        d[k] = np.array(d[k])
        if f.typed:
            d[k] = retype(rng, k, d[k])
        if f.laid:
            if (k in "AHQRB" and d[k].ndim > 1 and rng.random() < .3
                    and np.array_equal(d[k], np.broadcast_to(d[k][:1], d[k].shape))):
                d[k] = np.broadcast_to(d[k][0].copy(), d[k].shape)
            else:
                d[k] = lay(rng, d[k])
    return d


def kf_from(KF, d, size=None):
    kw = dict(A=d["A"], xk=d["x0"], B=d["B"], Pk=d["P0"], H=d["H"], Q=d["Q"], R=d["R"])
    if size:
        kw["state_size"] = size
    return KF(**kw)


# ------------------------------------------------------------------- nonlinear

class Nl:
    """Nonlinear model: f, h and Jacobians plus Q, R, x0, P0, U, Z."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    @property
    def T(self):
        return len(self.Z)

    @property
    def n(self):
        return len(self.x0)

    def but(self, **kw):
        d = dict(self.__dict__)
        d.update(kw)
        return Nl(**d)

    def cut(self, a, b):
        s = slice(a, b)
        return self.but(Q=self.Q[s], R=self.R[s], U=None if self.U is None else self.U[s],
                        Z=self.Z[s])


DEEP = [2049, 1025, 4097, 10001, 3000, 2049, 1500, 4097]


def deep_length(case):
    """Lengths beyond any plausible block size of an implementation."""
    return DEEP[case.index % len(DEEP)]


def deep_dims(rng):
    return dict(n=int(pick(rng, 1, 2)), m=int(pick(rng, 1, 2)), p=1, stable=True)


def nonlinear(case, T=None, smooth=False, control=None, big=True, T_max=None, n=None, m=None):
    rng = case.rng
    fam = pick(rng, "net", "net", "net", "bilinear", "pendulum", "poly", "range")
    n0, m0, p = dims(rng, big)
    if n is not None and fam == "pendulum":
        fam = "net"
    n, m = n or min(n0, 8), m or min(m0, 8)
    T = T or lengths(rng, case.index)
    if T_max:
        T = min(T, T_max)
    if fam == "pendulum":
        n, m = 2, pick(rng, 1, 1, 2)
    if fam == "range":
        n = max(n, 2)
    has_u = control if control is not None else rng.random() < 0.6
    A = trans(rng, n) * 0.9
    Bm = rng.standard_normal((n, p))
    V, W = rng.standard_normal((n, n)), rng.standard_normal((n, n)) * rng.uniform(0.05, 0.5)
    if n > 8:
        V, W = V / np.sqrt(n / 8), W / np.sqrt(n / 8)
    Bi = rng.standard_normal((p, n, n)) * 0.15
    C = rng.standard_normal((m, n))
    D, E = rng.standard_normal((m, n)) * 0.5, rng.standard_normal((m, n)) * 0.7
    if m > 1 and rng.random() < .12:  # a sensor that does not react to the state at all
        i = int(rng.integers(m))
        C[i] = E[i] = 0
    dt, g = rng.uniform(0.01, 0.1), 9.81
    beacon = rng.standard_normal((m, 2)) * 3 + 5
    scalar_h = m == 1 and rng.random() < 0.5

    def u_of(u):
        if u is None or np.isnan(u).all():
            return None
        return u

    if fam == "pendulum":
        def f0(x):
            return np.array([x[0] + dt * x[1], x[1] - g * dt * np.sin(x[0])])

        def ja0(x):
            return np.array([[1, dt], [-g * dt * np.cos(x[0]), 1.0]])
    elif fam == "poly":
        def f0(x):
            return A @ x + 0.1 * W @ (x**2 / (1 + x**2))

        def ja0(x):
            return A + 0.1 * W * (2 * x / (1 + x**2) ** 2)
    else:
        def f0(x):
            return A @ x + W @ np.sin(V @ x)

        def ja0(x):
            return A + (W * np.cos(V @ x)) @ V

    def f(x, u, /):
        r, u = f0(x), u_of(u)
        if u is not None:
            r = r + Bm @ u
            if fam != "pendulum":
                r = r + np.tensordot(u, Bi, 1) @ np.tanh(x)
        return r

    def jac_a(x, u, /):
        r, u = ja0(x), u_of(u)
        if u is not None and fam != "pendulum":
            r = r + np.tensordot(u, Bi, 1) * (1 - np.tanh(x) ** 2)
        return r

    if fam == "pendulum":
        def h0(x):
            return np.array([np.sin(x[0]), x[1]])[:m]

        def jh0(x):
            return np.array([[np.cos(x[0]), 0.0], [0.0, 1.0]])[:m]
    elif fam == "range":
        def h0(x):
            return np.sqrt(np.sum((x[:2] - beacon) ** 2, axis=1) + 1)

        def jh0(x):
            j = np.zeros((m, n))
            j[:, :2] = (x[:2] - beacon) / h0(x)[:, None]
            return j
    else:
        def h0(x):
            return C @ x + D.sum(axis=1) * 0.1 + np.sin(E @ x) * 0.8

        def jh0(x):
            return C + 0.8 * np.cos(E @ x)[:, None] * E

    # hardly moving models: covariances of size eps^2 around a slow or standing mean
    pace, eps = pick(rng, *[""] * 7, "slow", "still", "rest"), 1.0
    x0 = rng.standard_normal(n)
    quiet = 0
    if pace == "rest":  # a fixed point of f until some control sets in
        quiet, f2, x_rest = int(rng.integers(1, T + 1)), f, x0

        def f(x, u, /):
            return x_rest + (f2(x, u) - f2(x_rest, None))
    elif pace:
        eps, c0, f1, j1 = 10.0 ** rng.uniform(-7, -4), rng.standard_normal(n), f, jac_a

        def f(x, u, /):
            return x + eps * (f1(x, u) - x) if pace == "slow" else c0 + (f1(x, u) - f1(c0, u))

        def jac_a(x, u, /):
            return np.eye(n) + eps * (j1(x, u) - np.eye(n)) if pace == "slow" else j1(x, u)

    def h(x, /):
        r = h0(x)
        return r[0] if scalar_h else r

    def jac_h(x, /):
        return jh0(x)

    qs = 10.0 ** rng.uniform(-4, -0.5) * eps**2
    qkind = None if smooth else pick(rng, None, None, "zero", "rank")
    Q, pq = series(rng, T, lambda: qs * spd(rng, n, kind=qkind) + (1e-3 * qs * np.eye(n) if smooth else 0))
    rs = 10.0 ** rng.uniform(-2, 1) * eps**2
    R, pr = series(rng, T, lambda: rs * spd(rng, m) + 1e-2 * rs * np.eye(m))
    if m > 1 and rng.random() < .15:  # good and poor sensors side by side
        d = 10.0 ** rng.uniform(-3, 2, m)
        R = R * np.outer(d, d)
    P0 = spd(rng, n) * 10.0 ** rng.uniform(-2, 0.3) * eps**2
    if rng.random() < 0.1 and not smooth:
        P0 = np.zeros((n, n))
    if pace == "still":
        x0 = c0 + eps * x0
    U = rng.standard_normal((T, p)) if has_u else None
    if has_u and rng.random() < 0.3:
        U[rng.random(T) < 0.3] = np.nan
    if has_u:
        U[:quiet] = pick(rng, 0.0, np.nan)
    x = x0 + half(P0) @ rng.standard_normal(n)
    Z = np.zeros((T, m))
    for k in range(T):
        x = f(x, None if U is None else U[k]) + half(Q[k]) @ rng.standard_normal(n)
        Z[k] = h0(x) + half(R[k]) @ rng.standard_normal(m)
    Z[:quiet] = h0(x0)
    wild = rng.random() < 0.1 and not pace
    if wild:
        Z = rng.standard_normal((T, m)) * 30
    mod = Nl(f=f, h=h, jac_a=jac_a, jac_h=jac_h, Q=Q, R=R, x0=x0, P0=P0, U=U, Z=Z, m=m,
             scalar_h=scalar_h, fam=fam)
    case.seen(fam, Q, R, x0, P0, U, Z)
    case.desc.update(model=fam, n=n, m=m, T=T, control=bool(has_u), scalar_h=bool(scalar_h),
                     wild=bool(wild), time=[pq, pr], pace=pace)
    case.tag(f"n={n}", f"m={m}", f"T{bucket(T)}", f"model={fam}", f"control={bool(has_u)}", f"Q:{pq}",
             f"R:{pr}", "scalar h" if scalar_h else "vector h", f"pace:{pace or 'free'}")
    case.count("time_steps", T)
    return mod


def hand_over_nl(case, mod, f):
    d = dict(Q=mod.Q, R=mod.R, x0=mod.x0, P0=mod.P0, U=mod.U, Z=mod.Z)
    if f.extra:
        for k in "QR":
            d[k] = np.concatenate([d[k], np.full((f.extra,) + d[k].shape[1:], 1e3)])
    if f.z_scalar:
        d["Z"] = d["Z"][:, 0]
    if f.r_scalar:
        d["R"] = d["R"][:, 0, 0]
    if f.q_scalar:
        d["Q"] = d["Q"][:, 0, 0]
    for k in d:
        if d[k] is not None:
            d[k] = np.array(d[k])
            if f.laid:
                d[k] = lay(case.rng, d[k])
    return d


def ekf_from(EKF, d, mod):
    return EKF(xk=d["x0"], Pk=d["P0"], Q=d["Q"], R=d["R"], f=mod.f, h=mod.h,
               jacobian_A=mod.jac_a, jacobian_H=mod.jac_h)


def plain_kf(mod):
    return dict(A=mod.A, B=mod.B, H=mod.H, Q=mod.Q, R=mod.R, x0=mod.x0, P0=mod.P0, U=mod.U, Z=mod.Z)


def plain_nl(mod):
    return dict(Q=mod.Q, R=mod.R, x0=mod.x0, P0=mod.P0, U=mod.U, Z=mod.Z)


def as_nonlinear(mod):
    """A linear model with constant H as callbacks; time enters through the control.

    Each control row is (k, u...) so A_k and B_k u_k can be selected. Requires a
    constant H. If mod has no usable control the extended control still carries k.
    """
    A, H = mod.A, mod.H[0]
    T = mod.T
    c = np.zeros((T, mod.n))
    for k in range(T):
        v = mod.control(k)
        c[k] = v[0] @ v[1] if isinstance(v, tuple) else v
    const = bool(np.all(A == A[0]) and not np.any(c))

    def f(x, u, /):
        k = 0 if np.isnan(u).all() else int(u[0])
        r = A[k] @ x
        return r if const else r + c[k]

    def jac_a(x, u, /):
        return A[0 if np.isnan(u).all() else int(u[0])]

    def h(x, /):
        return H @ x

    def jac_h(x, /):
        return H

    U = np.column_stack([np.arange(T, dtype=float), np.zeros((T, 1))])
    return Nl(f=f, h=h, jac_a=jac_a, jac_h=jac_h, Q=mod.Q, R=mod.R, x0=mod.x0, P0=mod.P0, U=U,
              Z=mod.Z, m=mod.m, scalar_h=False, fam="linear", const=const)
