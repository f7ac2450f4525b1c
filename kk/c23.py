"""C23: copies and pickles of a filter, at any point of its life."""

import copy
import io
import os
import pickle
import subprocess
import sys

import numpy as np

from kk import gen, portable, ref
from kk.c16 import regular
from kk.common import ASSUME, EKF, KF, Skip, ekf_bands
from kk.core import REPO, ROOT

PROP = "C23"
RULE = ("random call histories on a filter, then a deep copy, a pickle round trip (every protocol, both picklers, "
        "in-process or through another interpreter) or a shallow copy; monitors: gains carried over, every later "
        "call of the copy against a fresh filter, gain lists of original and copy kept apart, model arrays of the "
        "original overwritten; non-trivial = at least one call of a copy compared; distinct by input and history digest")
ASSUMPTIONS = ASSUME


class Bench:
    """A filter with its model and the calls to try on it."""

    def __init__(self, case, linear=None):
        rng = self.rng = case.rng
        self.case = case
        self.linear = rng.random() < .5 if linear is None else linear
        T = int(rng.integers(1, 9))
        if self.linear:
            mod = gen.linear(case, smooth=True, T=T, scaled=False, big=False)
            b = ref.bands(mod, ref.recursive(mod, True), True)
            ref.require(b)
            f = gen.form(case, mod, plain=.5)
            self.d = gen.hand_over(case, mod, f)
            size = mod.n if f.size else None
            own = gen.pick(rng, None, None, None, "subclass", "branded")
            if own == "branded":
                self.make = lambda d=self.d: case.lib("a subclass", portable.Branded, "b", d, size)
            else:
                K = (lambda **kw: portable.OwnKF.named("k", **kw)) if own else KF
                self.make = lambda d=self.d: case.lib("KalmanFilter()", gen.kf_from, K, d, size)
            step = [("update", (mod.H[0], mod.x0, mod.P0 + np.eye(mod.n), mod.Z[0], mod.R[0]), 1),
                    ("predict", (mod.A[0], mod.x0, None, None, mod.P0, mod.Q[0]), 0)]
        else:
            mod = gen.nonlinear(case, smooth=True, T=T, big=False)
            u = 1 if mod.U is None else mod.U.shape[1]
            self.net = portable.Net(rng, mod.n, mod.m, u)
            kind, fns = portable.callbacks(rng, self.net)
            case.tag("callbacks:" + kind)
            mod = mod.but(**fns, scalar_h=False)
            b = ekf_bands(mod, True)[1]
            f = gen.form(case, mod, plain=.5)
            f.x_col = False
            self.d = gen.hand_over_nl(case, mod, f)
            own = gen.pick(rng, None, None, "subclass")
            E = (lambda **kw: portable.OwnEKF.named("e", **kw)) if own else EKF
            self.make = lambda d=self.d: case.lib("ExtendedKalmanFilter()", gen.ekf_from, E, d, mod)
            u0 = np.full(mod.m, np.nan) if mod.U is None else mod.U[0]
            step = [("update", (mod.x0, mod.P0 + np.eye(mod.n), mod.Z[0], mod.R[0]), 1),
                    ("predict", (mod.x0, u0, mod.P0, mod.Q[0]), 0)]
        case.tag("class:" + (own or "plain"))
        if not max(b.tx.max(), b.tP.max(), b.stx.max(), b.stP.max()) < 1e-6:
            raise Skip("ill-conditioned")
        H0 = mod.H[0] if self.linear else mod.jac_h(mod.x0)
        regular(H0 @ (mod.P0 + np.eye(mod.n)) @ H0.T + mod.R[0])
        self.mod = mod
        Z, U = self.d["Z"].copy(), None if self.d["U"] is None else self.d["U"].copy()
        self.jobs = step + [("filter", (Z, U), T), ("smooth", (Z, U), T)] * 2
        if T > 1:
            j = int(rng.integers(1, T))
            self.jobs += [("filter", (Z[:j], None if U is None else U[:j]), j)]
        # what a fresh filter answers, and the gains it records
        self.want = []
        for kind, args, k in self.jobs:
            o = self.make()
            out = [np.array(a, float) for a in case.lib("fresh " + kind, getattr(o, kind), *args)]
            self.want.append((out, [np.array(g, float) for g in o.kalman_gains]))
            if not all(np.isfinite(a).all() for a in out):
                raise Skip("diverged")
        self.size = o.state_size

    def history(self, obj, top=3):
        for _ in range(int(self.rng.integers(0, top + 1))):
            kind, args, _ = self.jobs[int(self.rng.integers(len(self.jobs)))]
            self.case.lib("earlier " + kind, getattr(obj, kind), *args)
        if self.rng.random() < .25:  # a failed call in between
            try:
                obj.filter(self.d["Z"][:, None, None, None, None] * np.ones((1, 1, 1, 3, 5)), self.d["U"])
            except Exception:  # noqa: BLE001
                self.case.count("failed_calls_before_copying")
        return [np.array(g) for g in obj.kalman_gains]

    def try_on(self, obj, what, kept, n=None):
        """Some calls on a copy: results and gains as on a fresh filter."""
        case = self.case
        for _ in range(n or int(self.rng.integers(1, 4))):
            i = int(self.rng.integers(len(self.jobs)))
            kind, args, k = self.jobs[i]
            n0 = len(obj.kalman_gains)
            out = case.lib(f"{kind} of {what}", getattr(obj, kind), *args)
            self.judge(f"{kind} of {what}", i, out, list(obj.kalman_gains)[n0:])
        if kept is not None:
            same_gains(case, f"gains carried over by {what}", list(obj.kalman_gains)[:len(kept)], kept)

    def judge(self, what, i, out, gains):
        case, (want, wg) = self.case, self.want[i]
        near(case, what, out, want)
        case.check(len(gains) == len(wg), f"{what} recorded {len(gains)} gains, expected {len(wg)}")
        for a, b in zip(gains, wg):
            near(case, f"gain of {what}", [a], [b])
        case.count("calls_of_copies_compared")
        case.nontrivial = True

    def spoil(self):
        """Overwrite everything the original was built from."""
        for k in ("A", "B", "H", "Q", "R", "x0", "P0"):
            a = self.d.get(k)
            if a is not None and a.flags.writeable and a.dtype.kind == "f":
                a[...] = np.nan
                self.case.count("model_arrays_overwritten")
        if not self.linear:
            self.net.spoil()


def same_kind(case, what, dup, obj):
    case.check(type(dup) is type(obj), f"{what} is a {type(dup).__name__}")
    if hasattr(obj, "same"):
        case.check(hasattr(dup, "label") and hasattr(dup, "notes") and obj.same(dup),
                   f"{what} lost attributes of the user's own class")


def near(case, what, got, want):
    for g, w in zip(got, want):
        g = np.asarray(g, float)
        case.close(what, g, w, 1e-7, np.max(np.abs(w)) + 1e-300)


def same_gains(case, what, got, kept):
    case.check(len(got) == len(kept), f"{what}: {len(got)} of {len(kept)}")
    for i, (a, b) in enumerate(zip(got, kept)):
        case.check(np.shape(a) == b.shape and np.array_equal(a, b), f"{what}: entry {i} differs")


def apart(case, what, a, b):
    """Original and copy share no gain storage."""
    ga, gb = a.kalman_gains, b.kalman_gains
    case.check(ga is not gb, f"{what} shares the gain list of the original")
    for x, y in zip(ga, gb):
        case.check(not np.shares_memory(x, y), f"{what} shares a recorded gain with the original")


def duplicate(case, obj, how):
    if how == "deepcopy":
        return case.lib("copy.deepcopy", copy.deepcopy, obj)
    proto = int(case.rng.integers(0, pickle.HIGHEST_PROTOCOL + 1))
    case.tag(f"protocol {proto}")
    if how == "pickle":
        return case.lib("pickle", lambda: pickle.loads(pickle.dumps(obj, proto)))
    if how == "out of band":
        def trip():
            bufs = []
            data = pickle.dumps(obj, 5, buffer_callback=bufs.append)
            return pickle.loads(data, buffers=[bytearray(b.raw()) for b in bufs])
        return case.lib("pickle with out-of-band buffers", trip)

    def trip():
        f = io.BytesIO()
        pickle._Pickler(f, proto).dump(obj)
        f.seek(0)
        return pickle._Unpickler(f).load()
    return case.lib("pickle (Python implementation)", trip)


def duplicated(case):
    rng = case.rng
    b = Bench(case)
    obj = b.make()
    kept = b.history(obj)
    how = gen.pick(rng, "deepcopy", "deepcopy", "pickle", "pickle", "out of band", "python pickle")
    what = f"a copy ({how})"
    case.tag("copied by " + how)
    case.desc.update(how=how, gains=len(kept))
    dup = duplicate(case, obj, how)
    same_kind(case, what, dup, obj)
    case.check(dup.state_size == obj.state_size == b.size, f"{what}: state_size {dup.state_size!r}")
    same_gains(case, f"gains of {what}", dup.kalman_gains, kept)
    apart(case, what, obj, dup)
    if rng.random() < .5:  # neither knows of the other's life
        n0 = len(obj.kalman_gains)
        b.try_on(dup, what, kept)
        case.check(len(obj.kalman_gains) == n0, f"calls on {what} changed the gain list of the original")
        same_gains(case, f"gains of the original after calls on {what}", obj.kalman_gains, kept)
        n1 = [np.array(g) for g in dup.kalman_gains]
        b.try_on(obj, "the original", kept)
        same_gains(case, f"gains of {what} after calls on the original", dup.kalman_gains, n1)
    more = [("first", dup)]
    if rng.random() < .4:
        again = duplicate(case, dup, gen.pick(rng, "deepcopy", "pickle"))
        apart(case, "a copy of a copy", dup, again)
        same_gains(case, "gains of a copy of a copy", again.kalman_gains, [np.array(g) for g in dup.kalman_gains])
        more.append(("second", again))
    if rng.random() < .6:
        b.spoil()
        what += " after the original's arrays were overwritten"
    for _, o in more:
        b.try_on(o, what, kept)
    for g in obj.kalman_gains:
        if isinstance(g, np.ndarray) and g.flags.writeable:
            g[...] = np.nan
    same_gains(case, f"gains of {what} after the original's were overwritten", list(dup.kalman_gains)[:len(kept)], kept)
    if rng.random() < .3:
        del obj
        b.try_on(dup, what + " and the original dropped", kept, 1)
    case.seen(how, repr(len(kept)))


def shallow(case):
    """copy.copy: same answers (what it shares is left open)."""
    b = Bench(case)
    obj = b.make()
    b.history(obj)
    dup = case.lib("copy.copy", copy.copy, obj)
    same_kind(case, "a shallow copy", dup, obj)
    case.check(dup.state_size == b.size, "state_size of a shallow copy")
    same_gains(case, "gains of a shallow copy", dup.kalman_gains, [np.array(g) for g in obj.kalman_gains])
    b.try_on(dup, "a shallow copy", None)
    b.try_on(obj, "the original of a shallow copy", None)


def family(case):
    """Several filters copied together, as one container."""
    rng = case.rng
    bs = [Bench(case, i % 2 == 0) for i in range(int(rng.integers(2, 4)))]
    objs = [b.make() for b in bs] + [bs[0].make()]
    bs.append(bs[0])
    kept = [b.history(o) for b, o in zip(bs, objs)]
    box = dict(filters=objs, again=objs[0])
    how = gen.pick(rng, "deepcopy", "pickle", "out of band")
    dup = duplicate(case, box, how)
    case.check(dup["again"] is dup["filters"][0], "one filter became two")
    for b, o, d, k in zip(bs, objs, dup["filters"], kept):
        same_gains(case, f"gains of a filter copied with others ({how})", d.kalman_gains, k)
        apart(case, "a filter copied with others", o, d)
        same_kind(case, "a filter copied with others", d, o)
    for i in rng.permutation(len(bs)):
        b, d, k = bs[i], dup["filters"][i], kept[i]
        b.try_on(d, f"a filter copied with others ({how})", k)
        kept[i] = [np.array(g) for g in d.kalman_gains]
        for e, kk in zip(dup["filters"], kept):
            same_gains(case, "gains of another filter in the same container", e.kalman_gains, kk)


def aged(case):
    """Filters with thousands of recorded gains."""
    rng = case.rng
    b = Bench(case)
    obj = b.make()
    i = max(range(len(b.jobs)), key=lambda i: b.jobs[i][2])
    kind, args, k = b.jobs[i]
    size = int(gen.pick(rng, 130, 260, 520, 1030, 2100))
    case.lib("earlier " + kind, getattr(obj, kind), *args)
    while len(obj.kalman_gains) < size:
        case.lib("earlier " + kind, getattr(obj, kind), *args)
    kept = [np.array(g) for g in obj.kalman_gains]
    how = gen.pick(rng, "deepcopy", "pickle", "out of band", "python pickle", "copy")
    what = f"a copy ({how}) of a filter with {len(kept)} gains"
    dup = case.lib("copy.copy", copy.copy, obj) if how == "copy" else duplicate(case, obj, how)
    same_gains(case, f"gains of {what}", dup.kalman_gains, kept)
    if how != "copy":
        apart(case, what, obj, dup)
    b.try_on(dup, what, kept)
    case.tag("aged", f"{size} gains", "copied by " + how)
    case.count("gains_carried_over", len(kept))
    case.seen("aged", how, repr(size))


CHILD = {}


def child():
    pid = os.getpid()
    if pid not in CHILD:
        env = dict(os.environ, PYTHONPATH=os.path.join(REPO, "src") + os.pathsep + ROOT, PYTHONDONTWRITEBYTECODE="1")
        CHILD[pid] = subprocess.Popen([sys.executable, "-c", "from kk.portable import serve; serve()"], env=env,
                                      cwd=ROOT, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    return CHILD[pid]


def elsewhere(case):
    """A filter, or one of its bound methods, sent to another interpreter and back."""
    rng = case.rng
    b = Bench(case)
    obj = b.make()
    kept = b.history(obj)
    proto = int(rng.integers(0, pickle.HIGHEST_PROTOCOL + 1))
    whole = rng.random() < .6
    picks = [int(rng.integers(len(b.jobs))) for _ in range(int(rng.integers(1, 4)))]
    if not whole:
        first = b.jobs[picks[0]][0]
        picks = [i for i in picks if b.jobs[i][0] == first]
    thing = obj if whole else getattr(obj, b.jobs[picks[0]][0])
    payload = case.lib("pickling", pickle.dumps, thing, proto)
    p = child()
    portable.put(p.stdin, (payload, [(b.jobs[i][0] if whole else None, b.jobs[i][1]) for i in picks]))
    res, gains, back, err = portable.get(p.stdout)
    case.check(err is None, f"in another process: {err}")
    what = "a filter in another process" if whole else "a method in another process"
    case.count("round_trips_between_processes")
    at = len(kept)
    same_gains(case, f"gains of {what}", gains[:at], kept)
    for i, out in zip(picks, res):
        k = b.jobs[i][2]
        b.judge(f"{b.jobs[i][0]} of {what}", i, out, gains[at:at + k])
        at += k
    case.check(len(gains) == at, f"{what} holds {len(gains)} gains, expected {at}")
    home = case.lib("unpickling", pickle.loads, back)
    same_kind(case, "a filter sent back", home, obj)
    same_gains(case, "gains of a filter sent back", home.kalman_gains, [np.array(g) for g in gains])
    b.try_on(home, "a filter sent back", [np.array(g) for g in gains])
    same_gains(case, "gains of the one that stayed", obj.kalman_gains, kept)
    case.seen(repr(picks), repr(whole))


FAMILIES = {
    "duplicated": (700, 10000, duplicated),
    "shallow": (100, 1000, shallow),
    "aged": (40, 400, aged),
    "together": (80, 1200, family),
    "elsewhere": (200, 3000, elsewhere),
}
