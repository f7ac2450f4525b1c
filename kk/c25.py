"""C25: nothing but the model and the recorded gains is kept."""

import gc
import sys
import threading
import tracemalloc
import weakref

import numpy as np

from kk import gen, ref
from kk.c16 import ASYNC, Boom, Interrupter
from kk.common import ASSUME, EKF, KF, computed

PROP = "C25"
RULE = ("random histories of filter, smooth, predict and update calls on both classes, every argument and result a fresh "
        "array followed by a weak reference, calls failing and interrupted included, in other threads and re-entrantly; "
        "monitors: which of these are still alive once the caller has dropped them, whether a dropped filter lets its "
        "model, callbacks and gains go, traced memory over thousands of calls and generations of filters, peak memory "
        "of long calls; non-trivial = references followed or calls measured; distinct by input and history digest")
ASSUMPTIONS = [ASSUME[0], "memory visible to weak references and tracemalloc (numpy reports its buffers there)",
               "a full garbage collection is run before anything is called retained"]


class Following:
    """Weak references to what should disappear."""

    def __init__(self, case):
        self.case, self.refs = case, []

    def __call__(self, what, a):
        if a is not None:
            root = a
            while isinstance(getattr(root, "base", None), np.ndarray):
                root = root.base
            for o in {id(a): a, id(root): root}.values():
                try:
                    self.refs.append((what, weakref.ref(o)))
                except TypeError:  # no weak references possible
                    self.case.count("not_followable")
                    return a
            self.case.count("references_followed")
        return a

    def gone(self, when):
        gc.collect()
        alive = [w for w, r in self.refs if r() is not None]
        self.case.check(not alive, f"{when}: still kept alive: {', '.join(sorted(set(alive))[:4])}")
        self.case.count("references_seen_dying", len(self.refs))
        self.refs.clear()


class Call:
    """A function of the user's, standing for one callback."""

    def __init__(self, fn, what, follow):
        self.fn, self.what, self.follow, self.fail = fn, what, follow, None

    def __call__(self, *a):
        if self.fail:
            self.fail[0] -= 1
            if self.fail[0] < 0:
                raise self.fail[1]
        out = self.fn(*a)
        if isinstance(out, np.ndarray):
            out = self.follow(f"value of {self.what}", np.array(out))
        return out


class Rig:
    """A model that can be built again and again from fresh arrays."""

    def __init__(self, case, linear, T=None, big=True):
        rng = case.rng
        T = T or int(rng.integers(1, 13))
        self.case, self.linear, self.T = case, linear, T
        if linear:
            self.mod = mod = gen.linear(case, smooth=True, T=T, scaled=False, big=big)
            ref.require(ref.bands(mod, ref.recursive(mod, True), True))
        else:
            self.mod = mod = gen.nonlinear(case, smooth=True, T=T, big=False)
        self.form = gen.form(case, mod, plain=.5)
        if not linear:
            self.form.x_col = False

    def arrays(self):
        return (gen.hand_over if self.linear else gen.hand_over_nl)(self.case, self.mod, self.form)

    def build(self, follow):
        """A filter of its own arrays (all followed), and its callbacks."""
        d, mod = self.arrays(), self.mod
        for k in ("A", "B", "H", "Q", "R", "x0", "P0"):
            follow(f"model array {k}", d.get(k))
        if self.linear:
            return gen.kf_from(KF, d, mod.n if self.form.size else None), None
        calls = {k: Call(getattr(mod, k), k, follow) for k in ("f", "h", "jac_a", "jac_h")}
        return gen.ekf_from(EKF, d, mod.but(**calls)), calls

    def arguments(self, kind, follow):
        mod, rng = self.mod, self.case.rng
        if kind in ("filter", "smooth"):
            d = self.arrays()
            args = [d["Z"], d["U"]]
        elif self.linear:
            k = int(rng.integers(mod.T))
            P = mod.P0 + np.eye(mod.n)
            args = [mod.A[k], mod.x0, None, None, P, mod.Q[k]] if kind == "predict" else [mod.H[k], mod.x0, P, mod.Z[k], mod.R[k]]
        else:
            k = int(rng.integers(mod.T))
            u = np.full(mod.m, np.nan) if mod.U is None else mod.U[k]
            P = mod.P0 + np.eye(mod.n)
            args = [mod.x0, u, P, mod.Q[k]] if kind == "predict" else [mod.x0, P, mod.Z[k], mod.R[k]]
        args = [None if a is None else np.array(a) for a in args]
        return [follow(f"argument {i} of {kind}", a) for i, a in enumerate(args)]


KINDS = ("filter", "filter", "smooth", "smooth", "predict", "update")


def one_call(case, rig, obj, calls, follow, kind, fate):
    """One call from fresh arrays; nothing of it stays with the harness."""
    rng = case.rng
    args = rig.arguments(kind, follow)
    fn = getattr(obj, kind)
    how = None
    if fate == "fails":
        if calls and rng.random() < .6:
            how = gen.pick(rng, *calls.values())
            how.fail = [int(rng.integers(0, 5)), gen.pick(rng, Boom, KeyboardInterrupt, MemoryError, StopIteration)("test")]
        else:
            args[-1 if kind in ("predict", "update") else 0] = follow("misshapen argument", np.ones((rig.T, 2, 3, 7)))
    elif fate == "interrupted":
        how = Interrupter(int(rng.integers(1, 30)), gen.pick(rng, *ASYNC)())
        fn = (lambda *a, f=fn, it=how: it.run(f, *a))
    if fate == "completes":
        out = computed(case, kind, fn, *args)
        for i, a in enumerate(out):
            follow(f"result {i} of {kind}", a)
        case.count("calls_completed")
        return
    try:
        for i, a in enumerate(fn(*args)):
            follow(f"result {i} of {kind}", a)
    except BaseException as e:  # noqa: BLE001
        case.count("calls_that_failed")
        case.tag(f"{fate}: {type(e).__name__}")
    finally:
        if isinstance(how, Call):
            how.fail = None


def released(case):
    """Followed references over a random history."""
    rng = case.rng
    rig = Rig(case, rng.random() < .5)
    of_calls, of_model = Following(case), Following(case)
    obj, calls = rig.build(of_model)
    for c in (calls or {}).values():
        c.follow = of_calls
        of_model("callback " + c.what, c)
    of_model("filter", obj)
    log = []
    for i in range(int(rng.integers(1, 7))):
        kind = gen.pick(rng, *KINDS)
        fate = gen.pick(rng, "completes", "completes", "completes", "fails", "interrupted")
        log.append(f"{kind} {fate}")
        if rng.random() < .15:
            t = threading.Thread(target=one_call, args=(case, rig, obj, calls, of_calls, kind, fate))
            t.start()
            t.join()
            del t
            case.tag("in another thread")
        else:
            one_call(case, rig, obj, calls, of_calls, kind, fate)
        if rng.random() < .7:
            of_calls.gone(f"after a {kind} that {fate}")
    of_calls.gone("after the calls")
    follow = Following(case)
    for g in obj.kalman_gains:
        follow("recorded gain", np.asarray(g))
    held = {}
    for g in obj.kalman_gains:
        g = np.asarray(g)
        r = g
        while isinstance(r.base, np.ndarray):
            r = r.base
        held[id(r)] = (r.nbytes, held.get(id(r), (0, 0))[1] + g.nbytes)
    if all(v.endswith("completes") for v in log):
        for size, used in held.values():
            case.check(size <= 4 * used + 512, f"gains of {used} bytes keep a buffer of {size} bytes alive")
        case.count("gain_buffers_measured", len(held))
    g = r = None
    del g, r
    if rng.random() < .3:  # a filter caught in a cycle of the user's
        loop = [obj]
        loop.append(loop)
        del loop
    del obj, calls
    c = None
    del c
    follow.gone("after dropping the filter")
    of_model.gone("after dropping the filter")
    case.seen(rig.mod.Z, rig.mod.x0, "/".join(log))
    case.desc.update(linear=rig.linear, T=rig.T, history=log)
    case.tag("class: " + ("standard" if rig.linear else "extended"))
    case.nontrivial = True


class traced:
    def __enter__(self):
        gc.collect()
        tracemalloc.start()

    def __exit__(self, *exc):
        tracemalloc.stop()


def now():
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


def size_of_gains(obj):
    parts = {id(obj.kalman_gains): sys.getsizeof(obj.kalman_gains)}
    for g in obj.kalman_gains:
        while isinstance(g, np.ndarray):
            parts[id(g)] = sys.getsizeof(g)
            parts[id(g.dtype)] = sys.getsizeof(g.dtype)  # results of byte-swapped inputs carry their own
            g = g.base
    return sum(parts.values())


def streaming(case):
    """An online loop without end: memory grows by the gains at most."""
    rng = case.rng
    rig = Rig(case, rng.random() < .6, T=int(rng.integers(1, 5)), big=False)
    mod = rig.mod
    ignore = lambda what, a: a  # noqa: E731
    obj, _ = rig.build(ignore)
    N = int(gen.pick(rng, 400, 600, 900)) * (3 if case.tier == "thorough" else 1)
    mode = gen.pick(rng, "predict", "both", "both", "short filters", "smoothers", "failing")
    x0, P0 = np.array(mod.x0), mod.P0 + np.eye(mod.n)
    u0 = None if mod.U is None else mod.U[0]

    def turn(i):
        e = 1e-9 * rng.standard_normal()
        if mode in ("predict", "both"):
            if rig.linear:
                obj.predict(mod.A[0] * (1 + e), x0 + e, None, None, P0 * (1 + e), mod.Q[0] * (1 + e))
            else:
                obj.predict(x0 + e, np.full(mod.m, np.nan) if u0 is None else u0, P0 * (1 + e), mod.Q[0] * (1 + e))
        if mode == "both":
            if rig.linear:
                obj.update(mod.H[0] * (1 + e), x0 + e, P0 * (1 + e), mod.Z[0] + e, mod.R[0] * (1 + e))
            else:
                obj.update(x0 + e, P0 * (1 + e), mod.Z[0] + e, mod.R[0] * (1 + e))
        if mode in ("short filters", "smoothers"):
            (obj.filter if mode == "short filters" else obj.smooth)(mod.Z + e, mod.U)
        if mode == "failing":
            try:
                obj.filter(np.ones((mod.T, 2, 3, 7)) + e, mod.U)
            except Exception:  # noqa: BLE001
                case.count("calls_that_failed")
    with traced():
        for i in range(N // 3):
            computed(case, mode, turn, i)
        a, ga, G = now(), len(obj.kalman_gains), size_of_gains(obj)
        for i in range(N):
            computed(case, mode, turn, i)
        b, gb = now(), len(obj.kalman_gains)
    G = size_of_gains(obj) - G
    case.check(b - a <= 40_000 + 1.15 * G,
               f"{N} rounds ({mode}) recorded {gb - ga} gains ({G} bytes) and left {b - a} bytes more in use")
    case.count("rounds_measured", N)
    case.tag("loop: " + mode)
    case.desc.update(mode=mode, N=N, growth=int(b - a), gains=gb - ga, linear=rig.linear)
    case.seen(mod.Z, mod.x0, mode)
    case.nontrivial = True


def generations(case):
    """Filters made, used and dropped, over and over."""
    rng = case.rng
    linear = rng.random() < .5
    N = int(gen.pick(rng, 25, 50)) * (3 if case.tier == "thorough" else 1)
    lengths = rng.random() < .6
    T = int(rng.integers(4 * N, 6 * N) if lengths else rng.integers(5, 25))
    rig = Rig(case, linear, T=T, big=False)
    if linear and rng.random() < .4:
        rig.mod.U = rig.mod.B = None
    ignore = lambda what, a: a  # noqa: E731
    todo = [int(v) for v in rng.permutation(np.arange(3, T))]
    case.tag("ever new lengths" if lengths else "one length")

    def life():
        obj, _ = rig.build(ignore)
        Z, U = rig.arguments("filter", ignore)
        if lengths:
            j = todo.pop()
            Z, U = Z[:j], None if U is None else U[:j]
        with np.errstate(all="ignore"):
            getattr(obj, gen.pick(rng, "filter", "smooth"))(Z * (1 + 1e-6 * rng.standard_normal()), U)
    with traced():
        for _ in range(N):
            computed(case, "filter", life)
        a = now()
        for _ in range(N):
            computed(case, "filter", life)
        b = now()
    case.check(b - a <= 20_000 + 100 * N, f"{N} filters, each used once and dropped, left {b - a} bytes in use")
    case.count("filters_made", 2 * N)
    case.desc.update(N=N, growth=int(b - a), linear=linear)
    case.seen(rig.mod.Z, rig.mod.x0)
    case.nontrivial = True


def peak(case):
    """The working memory of a long call stays in proportion to its results."""
    rng = case.rng
    T = int(gen.pick(rng, 1500, 2500, 4000))
    n, m = int(gen.pick(rng, 1, 2, 4, 5, 6)), int(gen.pick(rng, 1, 2))
    linear = rng.random() < .6
    kind = gen.pick(rng, "filter", "smooth")
    if linear:
        mod = gen.linear(case, T=T, n=n, m=m, p=1, smooth=True, scaled=False, stable=True)
        make = lambda: gen.kf_from(KF, gen.plain_kf(mod))  # noqa: E731
    else:
        mod = gen.nonlinear(case, T=T, n=n, m=m, smooth=True, big=False)
        make = lambda: gen.ekf_from(EKF, gen.plain_nl(mod), mod)  # noqa: E731
    n, m = mod.n, mod.m
    obj = case.lib("constructor", make)
    with traced():
        a = now()
        tracemalloc.reset_peak()
        with np.errstate(all="ignore"):
            computed(case, kind, getattr(obj, kind), mod.Z, mod.U)
        top, left = tracemalloc.get_traced_memory()[1] - a, now() - a
    need = 8 * T * (n + n * n + n * m) + 250 * T
    case.check(top <= 2_000_000 + 12 * need, f"a {kind} of {T} steps took {top} bytes of working memory for results of {need}")
    G = size_of_gains(obj)
    case.check(left <= 40_000 + 1.15 * G, f"a {kind} of {T} steps leaves {left} bytes in use, of which {G} are recorded gains")
    case.count("long_calls_measured")
    case.desc.update(T=T, n=n, m=m, kind=kind, peak=int(top), need=need, left=int(left), gains=G)
    case.seen(mod.Z[:50], mod.x0, kind)
    case.nontrivial = True


def footprint(case):
    """Few calls on a large state leave no copies of means or covariances behind."""
    rng = case.rng
    n, m, T = int(rng.integers(40, 70)), int(rng.integers(1, 3)), int(rng.integers(12, 30))
    linear = rng.random() < .5
    a = np.linalg.qr(rng.standard_normal((n, n)))[0] * rng.uniform(.5, 1)
    H = rng.standard_normal((m, n))
    Q, R = np.tile(np.eye(n), (T, 1, 1)), np.tile(np.eye(m), (T, 1, 1))
    fns = dict(f=lambda x, u: a @ x, h=lambda x: H @ x, jacobian_A=lambda x, u: a, jacobian_H=lambda x: H)

    def make(k=n):
        i = np.eye(k)
        if linear:
            return KF(A=np.tile(a[:k, :k], (T, 1, 1)), xk=np.zeros(k), B=None, Pk=i, H=np.tile(H[:, :k], (T, 1, 1)),
                      Q=Q[:, :k, :k], R=R)
        return EKF(xk=np.zeros(k), Pk=i, Q=Q[:, :k, :k], R=R, **fns)
    order = [gen.pick(rng, *KINDS) for _ in range(int(rng.integers(1, 4)))]

    def use(obj):
        for kind in order:
            if kind in ("filter", "smooth"):
                getattr(obj, kind)(rng.standard_normal((T, m)))
            for _ in range(T if kind in ("predict", "update") else 0):
                x, P = rng.standard_normal(n), np.eye(n) * rng.uniform(1, 2)
                if linear:
                    obj.predict(a, x, None, None, P, Q[0]) if kind == "predict" else obj.update(H, x, P, np.ones(m), R[0])
                else:
                    obj.predict(x, np.ones(1), P, Q[0]) if kind == "predict" else obj.update(x, P, np.ones(m), R[0])
    computed(case, "use", use, make())  # everything that is made on first use of the library
    obj = make()
    with traced():
        before = now()
        computed(case, "use", use, obj)
        left = now() - before
    G = size_of_gains(obj)
    case.check(left <= 20_000 + 3 * 8 * n * n + 1.15 * G,
               f"{'/'.join(order)} with {n} states leave {left} bytes in use, of which {G} are recorded gains")
    case.count("large_filters_measured")
    case.tag("class: " + ("standard" if linear else "extended"))
    case.desc.update(n=n, m=m, T=T, linear=linear, order=order, left=int(left), gains=G)
    case.seen(a, H, "/".join(order))
    case.nontrivial = True


FAMILIES = {
    "footprint": (60, 800, footprint),
    "released": (1200, 16000, released),
    "streaming": (64, 600, streaming),
    "generations": (36, 600, generations),
    "peak": (40, 400, peak),
}
