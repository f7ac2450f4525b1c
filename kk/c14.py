"""C14: purity of calls over histories, shared arrays, read-only inputs and re-entrancy."""

import hashlib
import sys
import threading
import warnings

import numpy as np

from kk import gen, ref
from kk.common import ASSUME, EKF, KF, Skip, Violation, computed, ekf_bands, steps, tame

PROP = "C14"
RULE = ("random histories of constructions and predict/update/filter/smooth calls over several objects of both classes "
        "sharing (read-only, strided, broadcast) arrays, with repeated argument tuples; monitors: input buffers "
        "hashed around every call, every returned array re-compared at the end, repeated calls compared with the "
        "first answer of a fresh object, overwritten results, calls nested in user functions, arrays that user functions "
        "returned and still hold, process-wide numeric "
        "state; non-trivial = at least one repeated call; distinct by input and history digest")
ASSUMPTIONS = ASSUME


def root(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


class Guard:
    """Hashes of every input buffer, including the memory around views."""

    def __init__(self, case):
        self.case, self.arrays = case, {}

    def add(self, name, *arrays):
        for a in arrays:
            if isinstance(a, np.ndarray):
                r = root(a)
                self.arrays.setdefault(id(r), (name, r, self._hash(r), a, self._meta(r, a)))

    @staticmethod
    def _meta(r, a):
        return a.shape, a.dtype, a.strides, a.flags.writeable, r.flags.writeable

    @staticmethod
    def _hash(a):
        return hashlib.blake2b(np.array(a, order="A").tobytes(), digest_size=16).digest()

    def verify(self, what):
        for name, r, h, a, meta in self.arrays.values():
            if self._hash(r) != h:
                raise Violation(f"{what} modified its input {name}")
            if self._meta(r, a) != meta:
                raise Violation(f"{what} changed shape, type or flags of its input {name}")
        self.case.count("input_buffers_verified", len(self.arrays))


def numeric_state():
    s = np.random.get_state()
    return (dict(np.geterr()), s[0], s[1].tobytes(), s[2], s[3], s[4], repr(np.get_printoptions()), np.geterrcall(),
            np.getbufsize(), sys.getrecursionlimit(), sys.getswitchinterval(), list(warnings.filters),
            threading.active_count())


STATE = ["error handling (seterr)", "random generator", "random generator", "random generator", "random generator",
         "random generator", "print options", "error callback", "buffer size", "recursion limit", "switch interval",
         "warning filters", "running threads"]


def state_verify(case, what, before):
    after = numeric_state()
    for n, a, b in zip(STATE, before, after):
        if a != b:
            raise Violation(f"{what} changed the process-wide {n}")
    case.count("process_state_checks")


class Results:
    """Everything returned so far, with snapshots."""

    def __init__(self, case):
        self.case, self.kept = case, []

    def keep(self, what, arrays):
        for a in arrays:
            a = np.asarray(a)
            self.kept.append((what, a, a.copy()))

    def verify(self):
        for what, a, snap in self.kept:
            if not np.array_equal(a, snap, equal_nan=True):
                raise Violation(f"the result of {what} changed after it was returned")
        self.case.count("returned_arrays_rechecked", len(self.kept))


def same(case, what, got, want, tols):
    for g, w, (tol, scale) in zip(got, want, tols):
        g, w = np.asarray(g, float), np.asarray(w, float)
        case.check(g.shape == w.shape, f"{what}: shape {g.shape} instead of {w.shape}")
        ok = np.broadcast_to(np.asarray(tol) < 0.05, w.shape)
        case.close(what, np.where(ok, g, 0), np.where(ok, w, 0), tol, scale)


class Task:
    """A call with fixed arguments, the answer of a fresh object and tolerances."""


def kf_tasks(case, mod, guard, objs_n):
    rng = case.rng
    f = gen.form(case, mod, plain=0.2)
    f.laid = True
    d = gen.hand_over(case, mod, f)
    if rng.random() < 0.5:
        for k, a in d.items():
            if a is not None and a.flags.owndata:
                a.setflags(write=False)
        case.tag("read-only inputs")
    r = ref.recursive(mod, True)
    b = ref.bands(mod, r, True)
    ref.require(b)
    for k, a in d.items():
        guard.add(k, a)

    def make():
        o = case.lib("KalmanFilter()", gen.kf_from, KF, d, mod.n if f.size else None)
        return o
    tasks = []
    for _ in range(int(rng.integers(2, 5))):
        t = Task()
        kind = gen.pick(rng, "filter", "smooth", "filter", "predict", "update")
        if kind in ("filter", "smooth"):
            k = int(rng.integers(1, mod.T + 1))
            Z, U = d["Z"][:k], None if d["U"] is None else d["U"][:k]
            t.args = (Z, U)
            sx, sP, tx, tP = ((b.ssx, b.ssP, b.stx, b.stP) if kind == "smooth" else (b.sx, b.sP, b.tx, b.tP))
            t.tols = [(2 * tx[:k, None], sx[:k]), (2 * tP[:k, None, None], sP[:k])]
            if kind == "smooth" and k < mod.T:
                cut = mod.cut(0, k)
                q = ref.recursive(cut, True)
                bb = ref.bands(cut, q, True)
                t.tols = [(2 * bb.stx[:, None], bb.ssx), (2 * bb.stP[:, None, None], bb.ssP)]
        elif kind == "predict":
            k = int(rng.integers(mod.T))
            u = None if mod.U is None or mod.B is None else d["U"][k]
            t.args = (d["A"][k], d["x0"] if not f.x_col else mod.x0, None if u is None else d["B"][k], u, d["P0"],
                      d["Q"][k])
            t.tols = None
        else:
            k = int(rng.integers(mod.T))
            t.args = (d["H"][k], mod.x0.copy(), d["P0"], d["Z"][k], d["R"][k])
            t.tols = None
        guard.add(kind + " argument", *[a for a in t.args if a is not None])
        t.kind, t.make = kind, make
        tasks.append(t)
    return make, tasks


def ekf_tasks(case, mod, guard, nest):
    rng = case.rng
    f = gen.form(case, mod, plain=0.2)
    f.x_col = False
    f.laid = True
    d = gen.hand_over_nl(case, mod, f)
    if rng.random() < 0.5:
        for k, a in d.items():
            if a is not None and a.flags.owndata:
                a.setflags(write=False)
        case.tag("read-only inputs")
    r, b = ekf_bands(mod, True)
    for k, a in d.items():
        guard.add(k, a)

    def wrap(fn, two):
        if two:
            def g(x, u, /):
                nest()
                return fn(x, u)
        else:
            def g(x, /):
                nest()
                return fn(x)
        return g
    nested = mod.but(f=wrap(mod.f, True), h=wrap(mod.h, False), jac_a=wrap(mod.jac_a, True),
                     jac_h=wrap(mod.jac_h, False))

    def make():
        return case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, d, nested)
    tasks = []
    for _ in range(int(rng.integers(2, 5))):
        t = Task()
        kind = gen.pick(rng, "filter", "smooth", "filter", "predict", "update")
        if kind in ("filter", "smooth"):
            k = int(rng.integers(1, mod.T + 1)) if kind == "filter" else mod.T
            t.args = (d["Z"][:k], None if d["U"] is None else d["U"][:k])
            sx, sP, tx, tP = ((b.ssx, b.ssP, b.stx, b.stP) if kind == "smooth" else (b.sx, b.sP, b.tx, b.tP))
            t.tols = [(2 * tx[:k, None], sx[:k]), (2 * tP[:k, None, None], sP[:k])]
        elif kind == "predict":
            k = int(rng.integers(mod.T))
            u = np.full(mod.m, np.nan) if d["U"] is None else d["U"][k]
            t.args, t.tols = (d["x0"], u, d["P0"], d["Q"][k]), None
        else:
            k = int(rng.integers(mod.T))
            t.args, t.tols = (mod.x0.copy(), d["P0"], d["Z"][k], d["R"][k]), None
        guard.add(kind + " argument", *[a for a in t.args if a is not None])
        t.kind, t.make = kind, make
        tasks.append(t)
    return make, tasks


def single_tol(out):
    return [(1e-9, np.max(np.abs(np.asarray(o, float))) + 1e-300) for o in out]


def history(case):
    rng = case.rng
    guard, results = Guard(case), Results(case)
    groups = []
    nesting = {"depth": 0, "p": gen.pick(rng, 0.0, 0.0, 0.15), "n": 0}

    def nest():
        """Sometimes call another (or the same) filter from inside a user function."""
        if nesting["depth"] or not nesting["p"] or rng.random() >= nesting["p"] or nesting["n"] > 40:
            return
        nesting["depth"] += 1
        nesting["n"] += 1
        try:
            pool, tasks = groups[int(rng.integers(len(groups)))]
            o, t = pool[int(rng.integers(len(pool)))], tasks[int(rng.integers(len(tasks)))]
            call(case, o, t, "nested ")
            case.count("nested_calls")
        finally:
            nesting["depth"] -= 1

    if rng.random() < 0.8:
        mod = gen.linear(case, smooth=True, T=int(rng.integers(1, 9)), big=rng.random() < .3)
        groups.append(([], *kf_tasks(case, mod, guard, 2)))
    if rng.random() < 0.7 or not groups:
        nl, _, _ = tame(case, gen.nonlinear(case, smooth=True, T=int(rng.integers(1, 8)), big=False))
        groups.append(([], *ekf_tasks(case, nl, guard, nest)))
    groups = [[pool, make, tasks] for pool, make, tasks in groups]
    makes = [g[1] for g in groups]
    groups = [(g[0], g[2]) for g in groups]
    p, nesting["p"] = nesting["p"], 0.0
    before = numeric_state()
    for (pool, tasks), make in zip(groups, makes):
        for t in tasks:
            t.want = None
            t.want = [np.array(a, float) for a in call(case, make(), t, "first ")]
            if t.tols is None:
                t.tols = single_tol(t.want)
        for _ in range(int(rng.integers(1, 4))):
            pool.append(make())
    nesting["p"] = p
    guard.verify("construction and first calls")
    ops = []
    for _ in range(int(rng.integers(3, 16))):
        g = int(rng.integers(len(groups)))
        pool, tasks = groups[g]
        i, j = int(rng.integers(len(pool))), int(rng.integers(len(tasks)))
        what = f"{tasks[j].kind} call"
        out = call(case, pool[i], tasks[j], "")
        guard.verify(what)
        if rng.random() < 0.35:  # overwrite the results
            for a in out:
                if isinstance(a, np.ndarray) and a.flags.writeable:
                    case.check(not any(np.shares_memory(a, r) for _, r, _, _, _ in guard.arrays.values()),
                               f"the result of {what} shares memory with an input")
                    a[...] = gen.pick(rng, np.nan, 1e30, 0.0)
                    case.count("results_overwritten")
        else:
            results.keep(what, out)
        ops.append((g, i, j))
        case.count("repeated_calls")
    state_verify(case, "a call", before)
    results.verify()
    guard.verify("the history")
    case.seen(repr(ops))
    case.desc["history"] = [(groups[g][1][j].kind, i) for g, i, j in ops]
    case.nontrivial = True


def call(case, obj, t, what):
    before = numeric_state()
    out = case.lib(f"{what}{t.kind}", getattr(obj, t.kind), *t.args)
    state_verify(case, f"{what}{t.kind}", before)
    if t.want is not None:
        same(case, f"{what}{t.kind} repeated", out, t.want, t.tols)
    return out


def isolated(case):
    """A second object built from the same arrays is not influenced by the first one's whole life."""
    rng = case.rng
    mod = gen.linear(case, smooth=True, T=int(rng.integers(2, 12)))
    r = ref.recursive(mod, True)
    b = ref.bands(mod, r, True)
    ref.require(b)
    d = gen.hand_over(case, mod, gen.form(case, mod, plain=0))
    guard = Guard(case)
    for k, a in d.items():
        guard.add(k, a)
    one = case.lib("KalmanFilter()", gen.kf_from, KF, d)
    two = case.lib("KalmanFilter()", gen.kf_from, KF, d)
    for _ in range(int(rng.integers(1, 4))):
        call_ = gen.pick(rng, "filter", "smooth")
        x, P = case.lib(call_, getattr(one, call_), d["Z"], d["U"])
        x[...] = np.nan
        P[...] = np.nan
        case.count("results_overwritten", 2)
    ok = steps(b.tx) & steps(b.tP)
    for o in (two, one):
        x, P = case.lib("filter", o.filter, d["Z"], d["U"])
        case.close("filter after other calls: mean", x[ok], r.x[ok], b.tx[ok][:, None], b.sx[ok])
        case.close("filter after other calls: covariance", P[ok], r.P[ok], b.tP[ok][:, None, None], b.sP[ok])
        case.count("repeated_calls")
    guard.verify("filter and smooth")
    # the model of an existing filter is the one it was given: overwriting the first result of a filter
    # must not reach the arrays used by later calls
    case.nontrivial = bool(np.any(mod.H))


def reenter(case):
    """Every callback runs a complete smoother on the same object before answering."""
    rng = case.rng
    mod, _, _ = tame(case, gen.nonlinear(case, smooth=True, T=int(rng.integers(1, 5)), big=False))
    r, b = ekf_bands(mod, True)
    depth, box = [0], {}
    which = gen.pick(rng, "filter", "smooth", "update", "predict")

    def inner():
        if depth[0] or "ekf" not in box:
            return
        depth[0] = 1
        try:
            e = box["ekf"]
            if which in ("filter", "smooth"):
                computed(case, "nested " + which, getattr(e, which), mod.Z[::-1].copy(), mod.U)
            elif which == "update":
                computed(case, "nested update", e.update, mod.x0 + 1, mod.P0, mod.Z[0], mod.R[0])
            else:
                computed(case, "nested predict", e.predict, mod.x0 + 1,
                         np.full(mod.m, np.nan) if mod.U is None else mod.U[0], mod.P0, mod.Q[0])
            case.count("nested_calls")
        finally:
            depth[0] = 0

    def wrap(fn, n):
        if n == 2:
            def g(x, u, /):
                inner()
                return fn(x, u)
        else:
            def g(x, /):
                inner()
                return fn(x)
        return g
    spy = mod.but(f=wrap(mod.f, 2), h=wrap(mod.h, 1), jac_a=wrap(mod.jac_a, 2), jac_h=wrap(mod.jac_h, 1))
    ekf = case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, gen.plain_nl(spy), spy)
    fresh = case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, gen.plain_nl(mod), mod)
    for c, (sx, sP, tx, tP) in dict(filter=(b.sx, b.sP, b.tx, b.tP), smooth=(b.ssx, b.ssP, b.stx, b.stP)).items():
        want = case.lib(c, getattr(fresh, c), mod.Z, mod.U)
        box["ekf"] = ekf
        got = case.lib(c, getattr(ekf, c), mod.Z, mod.U)
        box.clear()
        same(case, f"{c} with nested {which}", got, want, [(2 * tx[:, None], sx), (2 * tP[:, None, None], sP)])
    case.tag("nested " + which)
    case.nontrivial = True


def vary(rng, a):
    """Another array of the same shape: one entry, one row, or everything else."""
    b = a.copy()
    how = gen.pick(rng, "entry", "row", "last", "first", "all", "order")
    if how == "entry":
        b[int(rng.integers(len(b))), int(rng.integers(b.shape[1]))] += rng.uniform(0.5, 2)
    elif how == "order":
        b = b[rng.permutation(len(b))]
    else:
        k = dict(row=int(rng.integers(len(b))), last=-1, first=0, all=slice(None))[how]
        b[k] = b[k] + rng.uniform(0.5, 2, np.shape(b[k]))
    return b


def neighbours(case):
    """One object, calls whose arguments differ from the previous ones in one respect only."""
    rng = case.rng
    call_ = gen.pick(rng, "filter", "smooth")
    T = int(rng.integers(1, 12))
    extended = rng.random() < .5
    if extended:
        mod, _, _ = tame(case, gen.nonlinear(case, smooth=True, T=T, big=False, control=True))
        make = lambda: case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, gen.plain_nl(mod), mod)
    else:
        mod = gen.linear(case, smooth=True, T=T, control="both", scaled=False)
        make = lambda: case.lib("KalmanFilter()", gen.kf_from, KF, gen.plain_kf(mod))

    def bands(m):
        if extended:
            return ekf_bands(m, True)[1]
        b = ref.bands(m, ref.recursive(m, True), True)
        ref.require(b)
        return b

    obj = make()
    Z, U = mod.Z.copy(), mod.U.copy()
    for _ in range(int(rng.integers(3, 8))):
        what = gen.pick(rng, "Z", "U", "both", "no U", "shorter", "nothing", "U missing")
        z, u = Z, U
        if what in ("Z", "both"):
            z = vary(rng, Z)
        if what in ("U", "both"):
            u = vary(rng, np.nan_to_num(U))
        if what == "U missing":
            u = U.copy()
            u[int(rng.integers(len(u)))] = np.nan
        if what == "no U":
            u = None
        if what == "shorter":
            k = int(rng.integers(1, T + 1))
            z, u = Z[:k], U[:k]
        m2 = mod.but(Z=z, U=u) if what != "shorter" else mod.cut(0, len(z)).but(Z=z, U=u)
        b = bands(m2)
        sx, sP, tx, tP = (b.ssx, b.ssP, b.stx, b.stP) if call_ == "smooth" else (b.sx, b.sP, b.tx, b.tP)
        want = [np.array(a) for a in case.lib(call_, getattr(make(), call_), z.copy(), None if u is None else u.copy())]
        if rng.random() < .5:
            z, u = z.copy(), None if u is None else u.copy()
        got = case.lib(call_, getattr(obj, call_), z, u)
        same(case, f"{call_} after another call that differs in: {what}", got, want,
             [(2 * tx[:, None], sx), (2 * tP[:, None, None], sP)])
        case.count("repeated_calls")
        case.tag("differs in " + what)
        if what not in ("no U", "shorter"):
            Z, U = z, u
    case.seen(call_, T)
    case.nontrivial = True


def retained(case):
    """Results of many or long runs of equal shape stay apart; contents, not array objects, decide."""
    rng = case.rng
    T = int(gen.pick(rng, 1, 2, 7, 33, 70, 140, 270, 530, 1030)) if case.index % 16 else gen.deep_length(case)
    n = int(rng.integers(1, 4))
    mod = gen.linear(case, T=T, n=n, m=int(rng.integers(1, 3)), big=False, stable=True, smooth=True, missing=False,
                     scaled=False)
    mod.H = np.tile(mod.H[0], (T, 1, 1))
    r = ref.recursive(mod, True)
    b = ref.bands(mod, r, True)
    ref.require(b)
    call_ = gen.pick(rng, "filter", "filter", "smooth")
    if rng.random() < .5:
        nl = gen.as_nonlinear(mod)
        make = lambda: case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, gen.plain_nl(nl), nl)
        U = nl.U
        case.tag("retained: extended")
    else:
        make = lambda: case.lib("KalmanFilter()", gen.kf_from, KF, gen.plain_kf(mod))
        U = mod.U
        case.tag("retained: standard")
    results = Results(case)
    Z1 = mod.Z.copy()
    Z2 = rng.standard_normal(Z1.shape) * (1 + np.abs(Z1).max())
    want = {}
    for i, Z in enumerate((Z1, Z2)):
        want[i] = [np.array(a) for a in case.lib(call_, getattr(make(), call_), Z, U)]
    sx, sP, tx, tP = ((b.ssx, b.ssP, b.stx, b.stP) if call_ == "smooth" else (b.sx, b.sP, b.tx, b.tP))
    # data of the other sequence may be larger: scale by the larger of both answers
    scale = np.maximum(sx, np.maximum(np.abs(want[0][0]), np.abs(want[1][0])).max(axis=0))
    tols = [(2 * np.maximum.accumulate(tx)[:, None] if call_ == "filter" else np.full((T, 1), 2 * tx.max()), scale),
            (2 * tP[:, None, None], sP)]
    objs = [make(), make()]
    buf = Z1.copy()
    for _ in range(4 if T > 100 else int(gen.pick(rng, 8, 30, 120))):
        i = int(rng.integers(2))
        o = objs[int(rng.integers(2))]
        buf[...] = (Z1, Z2)[i]
        out = case.lib(call_, getattr(o, call_), buf if rng.random() < .7 else (Z1, Z2)[i], U)
        same(case, f"{call_} with reused observation array", out, want[i], tols)
        for _, a, _ in results.kept:
            for c in out:
                case.check(not np.shares_memory(a, c), f"results of two {call_} calls share memory")
        if len(results.kept) < 12:
            results.keep(call_, out)
        case.count("repeated_calls")
    results.verify()
    case.check(np.array_equal(Z1, mod.Z), "observations modified")
    case.nontrivial = True


POISON = [np.nan, np.inf, -np.inf, 1e200, -1e160, 5e-324, 0.0, 1e-200, -0.0]


def poison(rng, a):
    """A copy of a with some (or all) entries replaced by values nobody wants."""
    a = np.array(a, float)
    v = gen.pick(rng, np.nan, np.nan, np.nan, *POISON)
    hit = rng.random(a.shape) < gen.pick(rng, .15, .5, 1.0)
    if not hit.any():
        hit.reshape(-1)[int(rng.integers(hit.size))] = True
    a[hit] = v
    return a


def hostile(case):
    """Calls on unusable numbers (partly NaN, infinite, overflowing) leave no trace outside their result."""
    rng = case.rng
    extended = rng.random() < .4
    T = int(rng.integers(1, 6))
    if extended:
        mod, _, _ = tame(case, gen.nonlinear(case, smooth=True, T=T, big=False))
        b = ekf_bands(mod, True)[1]
        d = gen.hand_over_nl(case, mod, gen.Form(laid=True))
        build = lambda d: case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, d, mod)
        roles = ["Q", "R", "x0", "P0", "Z", "Z"] + (["U", "U"] if mod.U is not None else [])
    else:
        mod = gen.linear(case, smooth=True, T=T, scaled=False, big=False)
        b = ref.bands(mod, ref.recursive(mod, True), True)
        ref.require(b)
        d = gen.hand_over(case, mod, gen.Form(laid=True))
        build = lambda d: case.lib("KalmanFilter()", gen.kf_from, KF, d)
        roles = ["A", "H", "Q", "R", "x0", "P0", "Z", "Z"] + (["U", "U"] if mod.U is not None else []) + (
            ["B"] if mod.B is not None else [])
    bad = dict(d)
    hit = {gen.pick(rng, *roles) for _ in range(int(rng.integers(1, 3)))}
    for k in hit:
        bad[k] = gen.lay(rng, poison(rng, np.asarray(d[k])))
        case.tag("poisoned " + k)
    guard, results = Guard(case), Results(case)
    for k in d:
        guard.add(k, d[k], bad[k])
    one, two = build(d), build(bad)
    tols = dict(filter=[(2 * b.tx[:, None], b.sx), (2 * b.tP[:, None, None], b.sP)],
                smooth=[(2 * b.stx[:, None], b.ssx), (2 * b.stP[:, None, None], b.ssP)])
    want = {c: [np.array(a) for a in case.lib(c, getattr(one, c), d["Z"], d["U"])] for c in tols}
    for _ in range(int(rng.integers(2, 6))):
        call_ = gen.pick(rng, "filter", "smooth", "predict", "update")
        k = int(rng.integers(T))
        obj = (one, two)[int(rng.integers(2))]
        if call_ in tols:
            args = (bad["Z"], bad["U"])
        elif extended:
            u = np.full(mod.m, np.nan) if bad["U"] is None else bad["U"][k]
            args = (bad["x0"], u, bad["P0"], bad["Q"][k]) if call_ == "predict" else (
                bad["x0"], bad["P0"], bad["Z"][k], bad["R"][k])
        elif call_ == "predict":
            args = (bad["A"][k], bad["x0"], None if bad["B"] is None else bad["B"][k],
                    None if bad["U"] is None else bad["U"][k], bad["P0"], bad["Q"][k])
        else:
            args = (bad["H"][k], bad["x0"], bad["P0"], bad["Z"][k], bad["R"][k])
        what = f"{call_} on unusable {'/'.join(sorted(hit))}"
        with np.errstate(all="call", call=lambda *_: None):
            before = numeric_state()
            case.count("library_calls")
            try:
                out = getattr(obj, call_)(*args)
            except Exception as e:  # noqa: BLE001 - unusable numbers may be refused
                case.count(f"refused with {type(e).__name__}")
                out = ()
            state_verify(case, what, before)
        guard.verify(what)
        for a in out:
            if isinstance(a, np.ndarray):
                case.check(not any(np.shares_memory(a, r) for _, r, _, _, _ in guard.arrays.values()),
                           f"the result of {what} shares memory with an input")
        results.keep(what, out)
        case.count("hostile_calls")
        c = gen.pick(rng, *tols)
        fresh = rng.random() < .3
        same(case, f"{c} after {what}", case.lib(c, getattr(build(d) if fresh else one, c), d["Z"], d["U"]), want[c],
             tols[c])
        case.count("repeated_calls")
    results.verify()
    case.seen("hostile", repr(sorted(hit)))
    case.nontrivial = True


class Keeper:
    """User functions that hold on to every array they answer with: looked up again later, or write-protected."""

    def __init__(self, case, kinds):
        self.case, self.kinds, self.held, self.n = case, kinds, {}, 0

    def check(self, when):
        for (name, _), (a, b, w) in self.held.items():
            self.case.check(a.tobytes() == b, f"{when} changed an array that {name} returned and still holds")
            self.case.check(a.flags.writeable == w, f"{when} changed the writeability of an array that {name} holds")

    def keep(self, name, key, out):
        if not isinstance(out, np.ndarray):
            return out
        out = np.array(out)
        kind = self.kinds[name]
        if kind == "read-only":
            out.setflags(write=False)
        self.held[name, key] = out, out.tobytes(), out.flags.writeable
        self.n += 1
        return out

    def answer(self, name, fn, args):
        key = tuple(np.asarray(a).tobytes() for a in args)
        if (name, key) in self.held:
            self.case.count("answers_given_again")
            return self.held[name, key][0]
        return self.keep(name, key, fn(*args))

    def wrap(self, name, fn, two):
        if two:
            return lambda x, u, /: self.answer(name, fn, (x, u))
        return lambda x, /: self.answer(name, fn, (x,))


def answers(case):
    """What a user function returned stays the function's own."""
    rng = case.rng
    if rng.random() < .3:
        mod = gen.as_nonlinear(gen.linear(case, smooth=True, T=int(rng.integers(1, 9)), big=False, missing=False, scaled=False))
    else:
        mod = gen.nonlinear(case, smooth=True, T=int(rng.integers(1, 8)), big=False)
    mod = tame(case, mod)[0]
    b = ekf_bands(mod, True)[1]
    kinds = {k: gen.pick(rng, "memo", "memo", "read-only") for k in ("f", "h", "jac_a", "jac_h")}
    case.tag(*(f"{k} answers from {v}" for k, v in kinds.items()))
    k = Keeper(case, kinds)
    own = mod.but(f=k.wrap("f", mod.f, True), h=k.wrap("h", mod.h, False), jac_a=k.wrap("jac_a", mod.jac_a, True),
                  jac_h=k.wrap("jac_h", mod.jac_h, False))
    d = gen.plain_nl(mod)
    case.seen(mod.Z, mod.x0, mod.P0, repr(kinds))
    make = lambda m: case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, d, m)
    want = {c: [np.array(a) for a in case.lib(c, getattr(make(mod), c), d["Z"], d["U"])] for c in ("filter", "smooth")}
    objs = [make(own) for _ in range(int(rng.integers(1, 3)))]
    for _ in range(int(rng.integers(2, 6))):
        c = gen.pick(rng, "filter", "smooth", "step")
        o = objs[int(rng.integers(len(objs)))]
        if c == "step":
            u = np.full(mod.m, np.nan) if d["U"] is None else d["U"][0]
            x, P = case.lib("predict", o.predict, d["x0"], u, d["P0"], d["Q"][0])
            k.check("predict")
            if not np.linalg.cond(np.asarray(mod.jac_h(np.asarray(x, float))) @ P @ np.asarray(
                    mod.jac_h(np.asarray(x, float))).T + mod.R[0]) < 1e12:
                continue
            case.lib("update", o.update, x, P, d["Z"][0], d["R"][0])
        else:
            out = case.lib(c, getattr(o, c), d["Z"], d["U"])
            sx, sP, tx, tP = ((b.ssx, b.ssP, b.stx, b.stP) if c == "smooth" else (b.sx, b.sP, b.tx, b.tP))
            same(case, f"{c} with functions that keep what they return", out, want[c],
                 [(2 * tx[:, None], sx), (2 * tP[:, None, None], sP)])
            if rng.random() < .5:
                for a in out:
                    a[...] = np.nan
        k.check(c)
        case.count("repeated_calls")
    case.count("answers_held", k.n)
    case.nontrivial = k.n > 0


FAMILIES = {
    "answers": (150, 2000, answers),
    "hostile": (300, 4000, hostile),
    "retained": (90, 1500, retained),
    "neighbours": (250, 4000, neighbours),
    "history": (500, 7000, history),
    "isolated": (200, 3000, isolated),
    "reenter": (150, 2000, reenter),
}
