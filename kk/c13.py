"""C13: the gain list against a specification of call histories."""

import numpy as np

from kk import gen, ref
from kk.common import (ASSUME, EKF, KF, MAX_TOL, Skip, Violation, ekf_filter_check, gain_scale, gain_tol, step_check,
                       tame)

PROP = "C13"
RULE = ("random histories of predict, update, filter and smooth calls over several filter objects of both classes "
        "sharing model arrays; after every call every object's gain list is compared with the specification (count, "
        "order, optimality of new entries, old entries bitwise unchanged); non-trivial = history with at least two "
        "calls and one gain; distinct by input and history digest")
ASSUMPTIONS = ASSUME


class Watch:
    """Specification state of one filter object's gain list."""

    def __init__(self, case, name, obj):
        self.case, self.name, self.obj = case, name, obj
        self.kept, self.memory = [], []

    def before(self):
        return len(self.obj.kalman_gains)

    def verify(self, what, added=0):
        """added new entries since the last verify, all older ones unchanged."""
        g = self.obj.kalman_gains
        self.case.check(len(g) == len(self.kept) + added,
                        f"{self.name}: after {what} the gain list has {len(g)} entries, "
                        f"expected {len(self.kept)} + {added}")
        for i, old in enumerate(self.kept):
            new = np.asarray(g[i])
            if new.shape != old.shape or not np.array_equal(new, old, equal_nan=True):
                raise Violation(f"{self.name}: after {what} the recorded gain {i} changed")
        new = [np.asarray(g[i]) for i in range(len(self.kept), len(g))]
        for i, a in enumerate(new):
            for b in new[:i][-8:] + [np.asarray(g[j]) for j in range(max(0, len(self.kept) - 2), len(self.kept))]:
                if np.shares_memory(a, b):
                    raise Violation(f"{self.name}: after {what} two recorded gains share memory")
        self.memory = new
        fresh = [np.array(a, copy=True) for a in new]
        self.case.count("recorded_gains_rechecked", len(self.kept))
        self.case.count("gains_recorded", added)
        self.kept += fresh
        return fresh


class LinObject:
    def __init__(self, case, mod, name):
        self.case, self.mod = case, mod
        self.obj = case.lib("KalmanFilter()", gen.kf_from, KF, gen.hand_over(case, mod, gen.Form(laid=case.rng.random() < .3)))
        self.r = ref.recursive(mod, True)
        bd = ref.bands(mod, self.r, True)
        ref.require(bd)
        self.sc = gain_scale(mod, self.r)
        self.tol = gain_tol(mod, self.r, self.sc)
        self.w = Watch(case, name, self.obj)

    def run(self, call, k):
        case, mod = self.case, self.mod
        f = lambda a: None if a is None else a[:k]
        Z = mod.Z[:k] if case.rng.random() < .5 else case.rng.standard_normal((k, mod.m))
        case.lib(call, getattr(self.obj, call), Z, f(mod.U))
        new = self.w.verify(f"{call} over {k} observations", k)
        for i, g in enumerate(new):
            if self.tol[i] < MAX_TOL:
                case.close(f"{self.w.name}: gain of {call} step {i}", g, self.r.K[i], self.tol[i], self.sc[i])
                case.count("gains_judged")

    def predict(self):
        rng, n = self.case.rng, self.mod.n
        p = 2
        self.case.lib("predict", self.obj.predict, rng.standard_normal((n, n)), rng.standard_normal(n),
                      rng.standard_normal((n, p)), rng.standard_normal(p), gen.spd(rng, n), gen.spd(rng, n))
        self.w.verify("predict", 0)

    def update(self):
        rng, mod = self.case.rng, self.mod
        n = mod.n
        m = int(rng.integers(1, 4))  # updates may use any observation dimension
        H, x, P = rng.standard_normal((m, n)), rng.standard_normal(n), gen.spd(rng, n)
        z, R = rng.standard_normal(m), gen.spd(rng, m) + 0.1 * np.eye(m)
        last = getattr(self, "last", None)
        if last is not None and rng.random() < .4:  # the step before with some signs changed
            H, x, P, z, R = (a * (-1.0 if rng.random() < .4 and i in (0, 1, 3) else 1.0) for i, a in enumerate(last))
        self.last = H, x, P, z, R
        gx, gP = self.case.lib("update", self.obj.update, H, x, P, z, R)
        (K,) = self.w.verify("update", 1)
        step_check(self.case, "update", x, P, H, R, z - H @ x, gx, gP, K)
        reproduces(self.case, K, x, gx, z - H @ x, P, gP, H)
        self.case.count("gains_judged")


class NlObject:
    def __init__(self, case, mod, name):
        self.case, self.mod = case, mod
        self.obj = case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, gen.plain_nl(mod), mod)
        other = case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, gen.plain_nl(mod), mod)
        self.x, self.P = case.lib("filter", other.filter, mod.Z, mod.U)
        self.w = Watch(case, name, self.obj)

    def run(self, call, k):
        case, mod = self.case, self.mod.cut(0, k)
        out = case.lib(call, getattr(self.obj, call), mod.Z, mod.U)
        new = self.w.verify(f"{call} over {k} observations", k)
        x, P = out if call == "filter" else (self.x[:k], self.P[:k])
        if call == "filter":
            ekf_filter_check(case, mod, x, P, new)
        else:
            px, pP = mod.x0, mod.P0
            for i in range(k):
                u = np.full(np.shape(mod.Z[i]), np.nan) if mod.U is None else mod.U[i]
                J = np.asarray(mod.jac_a(px, u), float)
                xp = np.asarray(mod.f(px, u), float)
                Pp = ref.sym(J @ ref.sym(pP) @ J.T + mod.Q[i])
                H = np.asarray(mod.jac_h(xp), float)
                K = ref.update_ld(xp, Pp, H, mod.R[i], np.zeros(mod.m))[2]
                sd = np.sqrt(np.maximum(np.diag(Pp), 1e-300))
                so = np.sqrt(np.diag(H @ Pp @ H.T + mod.R[i]))
                case.close(f"{self.w.name}: gain of smooth step {i}", new[i], K, 1e-5, np.outer(sd, 1 / so))
                px, pP = x[i], P[i]
        case.count("gains_judged", k)

    def predict(self):
        rng, n, mod = self.case.rng, self.mod.n, self.mod
        u = np.full(mod.m, np.nan) if mod.U is None else mod.U[0]
        self.case.lib("predict", self.obj.predict, rng.standard_normal(n), u, gen.spd(rng, n), gen.spd(rng, n))
        self.w.verify("predict", 0)

    def update(self):
        rng, mod = self.case.rng, self.mod
        n, m = mod.n, mod.m
        x, P, z, R = rng.standard_normal(n), gen.spd(rng, n), rng.standard_normal(m), gen.spd(rng, m) + 0.1 * np.eye(m)
        gx, gP = self.case.lib("update", self.obj.update, x, P, z, R)
        (K,) = self.w.verify("update", 1)
        H = np.asarray(mod.jac_h(x), float)
        y = z - np.atleast_1d(mod.h(x))
        step_check(self.case, "EKF update", x, P, H, R, y, gx, gP, K)
        reproduces(self.case, K, x, gx, y, P, gP, H)
        self.case.count("gains_judged")


def reproduces(case, K, x, gx, y, P, gP, H):
    mag = np.abs(x) + np.abs(K) @ np.abs(y)
    case.close("correction of the mean by the recorded gain", gx, x + K @ y, 1e-10, mag)
    mag = np.abs(P) + np.abs(K) @ np.abs(H @ P) + np.abs(K @ H) @ np.abs(P)
    case.close("correction of the covariance by the recorded gain", gP, P - K @ H @ P, 1e-7, np.max(mag))


def history(case):
    rng = case.rng
    objs = []
    wide = rng.random() < .1
    lin = gen.linear(case, smooth=True, T=int(rng.integers(1, 7)), n=int(rng.integers(5, 20) if wide else rng.integers(1, 5)),
                     m=int(rng.integers(5, 20) if wide else rng.integers(1, 4)))
    for i in range(int(rng.integers(1, 3))):
        objs.append(LinObject(case, lin, f"filter {i}"))  # sharing every array
    if rng.random() < 0.7:
        nl, _, _ = tame(case, gen.nonlinear(case, smooth=True, T=int(rng.integers(1, 6)), big=False))
        for i in range(int(rng.integers(1, 3))):
            objs.append(NlObject(case, nl, f"extended filter {i}"))
    ops = []
    for o in objs:
        o.w.verify("construction", 0)
    for i in range(len(objs)):
        for j in range(i):
            case.check(objs[i].obj.kalman_gains is not objs[j].obj.kalman_gains, "two objects share one gain list")
    for _ in range(int(rng.integers(2, 14))):
        i = int(rng.integers(len(objs)))
        o = objs[i]
        op = gen.pick(rng, "filter", "smooth", "predict", "update", "update", "filter")
        k = int(rng.integers(1, o.mod.T + 1))
        ops.append((i, op, k))
        if op in ("filter", "smooth"):
            o.run(op, k)
        else:
            getattr(o, op)()
        case.tag("call:" + op)
        for other in objs:
            if other is not o:
                other.w.verify(f"a {op} on another object", 0)
                for a in o.w.memory[-3:]:
                    for g in other.obj.kalman_gains[-3:]:
                        case.check(not np.shares_memory(a, np.asarray(g)), "two objects share a recorded gain")
    case.seen(repr(ops))
    case.desc["history"] = ops
    case.count("calls", len(ops))
    case.nontrivial = len(ops) > 1 and any(o.w.kept for o in objs)
    if case.index < 30 and case.nontrivial:
        self_test(case, objs)


def self_test(case, objs):
    """The monitor must notice a lost, duplicated, altered or reordered entry."""
    o = next(o for o in objs if o.w.kept)
    real = o.obj

    class Fake:
        pass
    for mutate in (lambda g: g[:-1], lambda g: g + g[-1:], lambda g: g[:-1] + [g[-1] * (1 + 1e-9) + 1e-12]):
        fake = Fake()
        fake.kalman_gains = mutate(list(real.kalman_gains))
        o.w.obj = fake
        saved = dict(case.counts), case.margin
        try:
            o.w.verify("self test", 0)
        except Violation:
            case.counts.clear()
            case.counts.update(saved[0])
            case.count("monitor_self_tests")
        else:
            raise RuntimeError("monitor self-test: a falsified gain list was accepted")
    o.w.obj = real


def long(case):
    """Gains of long runs and of many single updates."""
    rng = case.rng
    lin = gen.linear(case, smooth=True, T=int(gen.pick(rng, 150, 400)), n=2, m=1, stable=True)
    o = LinObject(case, lin, "filter")
    o.run("filter", lin.T)
    for _ in range(int(rng.integers(50, 200))):
        o.update()
    o.run("smooth", lin.T)
    case.nontrivial = True


def deep(case):
    """Thousands of gains on one object of either class."""
    rng = case.rng
    T = gen.deep_length(case)
    if case.index % 2:
        lin = gen.linear(case, smooth=True, T=T, **gen.deep_dims(rng))
        o = LinObject(case, lin, "filter")
    else:
        nl, _, _ = tame(case, gen.nonlinear(case, smooth=True, T=T, n=int(rng.integers(1, 3)), m=1))
        o = NlObject(case, nl, "extended filter")
        T = nl.T
    o.run(gen.pick(rng, "filter", "smooth"), T)
    for _ in range(3):
        o.update()
        o.predict()
    o.run("filter", int(rng.integers(1, T + 1)))
    case.count("longest_gain_list", len(o.w.kept))
    case.nontrivial = True


FAMILIES = {
    "history": (700, 10000, history),
    "long": (8, 100, long),
    "deep": (6, 48, deep),
}
