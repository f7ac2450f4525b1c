"""C15: threads, under a controlled line/opcode-level scheduler and under free-running stress."""

import os
import sys
import threading
import time
import zlib

import numpy as np

import kalmankit

from kk import gen, ref
from kk.common import ASSUME, EKF, KF, Skip, Violation, computed, ekf_bands, tame

PROP = "C15"
RULE = ("2-5 threads running random sequences of predict/update/filter/smooth on own or shared objects of both "
        "classes with shared arrays and callbacks; schedules come from a seeded cooperative scheduler switching at "
        "line or opcode events inside the library and its callbacks, and from free-running stress with a 1 us switch "
        "interval and yields injected into callbacks and array operations; every outcome is compared with the "
        "recorded sequential one and gain lists as multisets; non-trivial = at least one observed switch between "
        "threads inside library code; distinct by input and observed interleaving")
ASSUMPTIONS = ASSUME + ["CPython with the GIL: interleavings at bytecode granularity"]
WORKERS = 4
LIB = os.path.dirname(os.path.realpath(kalmankit.__file__)) + os.sep


class Token:
    """Seeded cooperative scheduler: one traced thread runs at a time, switches at trace events.

    A thread that waits too long (its predecessor blocks on a lock of the code
    under test) proceeds anyway, so no schedule can deadlock the monitor.
    """

    def __init__(self, rng, n, p, opcodes, budget):
        self.cv = threading.Condition()
        self.rng = np.random.default_rng(rng.integers(2**63))
        self.alive, self.turn = set(range(n)), 0
        self.p, self.opcodes, self.budget = p, opcodes, budget
        self.switches, self.events, self.trace = 0, 0, 0
        self.timeouts = 0

    def wait(self, me):
        end = time.monotonic() + 0.05
        while self.turn != me and self.turn in self.alive:
            left = end - time.monotonic()
            if left <= 0:
                self.timeouts += 1
                self.turn = me
                break
            self.cv.wait(left)

    def point(self, me, where):
        with self.cv:
            self.events += 1
            self.trace = zlib.crc32(b"%d:%d" % (me, where), self.trace)
            if self.switches < self.budget and self.timeouts < 20 and len(self.alive) > 1 and self.rng.random() < self.p:
                nxt = int(self.rng.choice(sorted(self.alive - {me})))
                self.turn = nxt
                self.switches += 1
                self.cv.notify_all()
            self.wait(me)

    def done(self, me):
        with self.cv:
            self.alive.discard(me)
            if self.turn == me and self.alive:
                self.turn = int(self.rng.choice(sorted(self.alive)))
            self.cv.notify_all()

    def tracer(self, me):
        def local(frame, event, arg):
            if event in ("line", "opcode"):
                self.point(me, frame.f_lineno)
            return local

        def glob(frame, event, arg):
            name = frame.f_code.co_filename
            if name.startswith(LIB) or name == __file__ or os.path.realpath(name).startswith(LIB):
                if name == __file__ and frame.f_code.co_name not in CALLBACKS:
                    return None
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return glob


CALLBACKS = {"shared_f", "shared_h", "shared_ja", "shared_jh"}


class Lin:
    """Jobs of a shared linear model."""

    def __init__(self, case, wrap=None, n=None, m=None, T=None):
        rng = case.rng
        self.case = case
        self.mod = mod = gen.linear(case, smooth=True, T=T or int(rng.integers(2, 7)), n=n or int(rng.integers(1, 4)),
                                    m=m or int(rng.integers(1, 4)), scaled=False, stable=True)
        r = ref.recursive(mod, True)
        b = ref.bands(mod, r, True)
        ref.require(b)
        if not max(b.stx.max(), b.stP.max(), b.tx.max(), b.tP.max()) < 1e-6:
            raise Skip("ill-conditioned")
        d = gen.plain_kf(mod)
        self.d = {k: wrap(a) if wrap and a is not None and k != "P0" else a for k, a in d.items()}
        self.plain = d

    def make(self, plain=False):
        return self.case.lib("KalmanFilter()", gen.kf_from, KF, self.plain if plain else self.d)

    def job(self):
        rng, mod, d = self.case.rng, self.mod, self.d
        kind = gen.pick(rng, "filter", "filter", "smooth", "update", "predict")
        if kind in ("filter", "smooth"):
            k = int(rng.integers(1, mod.T + 1))
            Z = mod.Z[:k] + rng.standard_normal((k, mod.m))
            return kind, (Z, None if d["U"] is None else d["U"][:k])
        if kind == "update":
            P = gen.spd(rng, mod.n) + 0.1 * np.eye(mod.n)
            return kind, (d["H"][0], rng.standard_normal(mod.n), P, mod.Z[0], mod.R[0] * rng.uniform(.5, 2))
        return kind, (d["A"][0], rng.standard_normal(mod.n), None, None, gen.spd(rng, mod.n), d["Q"][0])


class Ext:
    """Jobs of a shared nonlinear model."""

    def __init__(self, case, slow=None, n=None, m=None, T=None):
        rng = case.rng
        self.case = case
        mod = gen.nonlinear(case, smooth=True, T=T or int(rng.integers(2, 6)), big=False, n=n, m=m)
        self.mod = mod = tame(case, mod)[0]
        _, b = ekf_bands(mod, True)
        if not max(b.stx.max(), b.stP.max()) < 1e-5:
            raise Skip("ill-conditioned")
        slow = slow or (lambda: None)

        def shared_f(x, u, /):
            slow()
            return mod.f(x, u)

        def shared_h(x, /):
            slow()
            return mod.h(x)

        def shared_ja(x, u, /):
            slow()
            return mod.jac_a(x, u)

        def shared_jh(x, /):
            slow()
            return mod.jac_h(x)
        self.spied = mod.but(f=shared_f, h=shared_h, jac_a=shared_ja, jac_h=shared_jh)

    def make(self, plain=False):
        m = self.mod if plain else self.spied
        return self.case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, gen.plain_nl(m), m)

    def job(self):
        rng, mod = self.case.rng, self.mod
        kind = gen.pick(rng, "filter", "filter", "smooth", "update", "predict")
        if kind in ("filter", "smooth"):
            k = int(rng.integers(1, mod.T + 1))
            Z = mod.Z[:k] + 0.05 * rng.standard_normal((k, mod.m))
            return kind, (Z, None if mod.U is None else mod.U[:k])
        x, P = mod.x0 + 0.1 * rng.standard_normal(mod.n), gen.spd(rng, mod.n) + 0.1 * np.eye(mod.n)
        if kind == "update":
            return kind, (x, P, mod.Z[0], mod.R[0] * rng.uniform(.5, 2))
        return kind, (x, np.full(mod.m, np.nan) if mod.U is None else mod.U[0], P, mod.Q[0])


def near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    s = np.max(np.abs(b)) if b.size else 0
    return bool(np.all(np.abs(a - b) <= 1e-8 * s + 1e-300))


def start(case, sources, n_threads, jobs_each, shared):
    """Plans: per thread a list of (object index, kind, args, expected, expected gains)."""
    rng = case.rng
    objs, plans = [], []
    pool = []
    if shared:
        for s in sources:
            pool.append((s, s.make()))
        objs = [o for _, o in pool]
    for t in range(n_threads):
        plan = []
        own = {}
        for _ in range(jobs_each):
            i = int(rng.integers(len(sources)))
            s = sources[i]
            kind, args = s.job()
            fresh = s.make(plain=True)
            want = [np.array(a, float) for a in computed(case, "sequential " + kind, getattr(fresh, kind), *args)]
            gains = [np.array(g, float) for g in fresh.kalman_gains]
            if shared:
                o = i
            else:
                if i not in own:
                    own[i] = len(objs)
                    objs.append(s.make())
                o = own[i]
            plan.append((o, kind, args, want, gains))
        plans.append(plan)
    return objs, plans


def go(case, objs, plans, token=None):
    """Run all plans concurrently; returns per job outcomes."""
    n = len(plans)
    out = [[] for _ in plans]
    barrier = threading.Barrier(n)

    def body(me):
        try:
            barrier.wait(10)
            if token:
                with token.cv:
                    token.wait(me)
                sys.settrace(token.tracer(me))
            for o, kind, args, _, _ in plans[me]:
                try:
                    out[me].append(("ok", getattr(objs[o], kind)(*args)))
                except Exception as e:  # noqa: BLE001
                    out[me].append(("raised", e))
        finally:
            sys.settrace(None)
            if token:
                token.done(me)
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(120)
    if any(t.is_alive() for t in ts):
        raise Violation("concurrent calls did not finish within 120 s (deadlock)")
    return out


def judge(case, objs, plans, out):
    per_obj = {i: [] for i in range(len(objs))}
    for t, plan in enumerate(plans):
        case.check(len(out[t]) == len(plan), f"thread {t} lost a call")
        for (o, kind, args, want, gains), (how, got) in zip(plan, out[t]):
            if how == "raised":
                raise Violation(f"concurrent {kind} in thread {t} raised {type(got).__name__}: {got}")
            for a, w in zip(got, want):
                case.count("concurrent_values", int(np.size(w)))
                case.check(near(a, w), f"concurrent {kind} in thread {t} differs from the sequential result: got "
                                       f"{np.asarray(a).reshape(-1)[:4].tolist()} expected {w.reshape(-1)[:4].tolist()}")
            per_obj[o].append((t, gains))
            case.count("concurrent_calls")
    for o, parts in per_obj.items():
        have = [np.array(g, float) for g in objs[o].kalman_gains]
        want = [g for _, gs in parts for g in gs]
        case.check(len(have) == len(want), f"gain list of a {'shared' if len(parts) > 1 else ''} object holds "
                                           f"{len(have)} gains after {len(want)} concurrent updates")
        left = list(have)
        for w in want:
            hit = next((i for i, g in enumerate(left) if near(g, w)), None)
            if hit is None:
                raise Violation("a gain of a concurrent update is missing from the object's gain list")
            left.pop(hit)
        case.count("gains_matched", len(want))


def sources(case, slow=None, wrap=None):
    rng = case.rng
    kinds = gen.pick(rng, "L", "L", "E", "E", "LE", "LE", "LLE")
    if rng.random() < .5:  # several models of equal shape
        kinds = kinds * 2
        case.tag("several models of equal shape")
    n, m, T = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(2, 6))
    return [Lin(case, wrap, n, m, T) if k == "L" else Ext(case, slow, n, m, T) for k in kinds]


def scheduled(case):
    """Seeded schedules at line and opcode granularity."""
    rng = case.rng
    shared = rng.random() < 0.6
    opcodes = rng.random() < 0.5
    nt = int(rng.integers(2, 4))
    objs, plans = start(case, sources(case), nt, int(rng.integers(1, 4)), shared)
    token = Token(rng, nt, gen.pick(rng, 0.02, 0.1, 0.3, 0.6), opcodes, 4000)
    out = go(case, objs, plans, token)
    judge(case, objs, plans, out)
    case.seen(str(token.trace))
    case.tag("shared object" if shared else "own objects", "opcode switches" if opcodes else "line switches",
             f"{nt} threads")
    case.desc.update(threads=nt, shared=shared, opcodes=opcodes, switches=token.switches)
    case.count("schedule_points", token.events)
    case.count("thread_switches", token.switches)
    case.count("schedules_observed")
    case.count("schedule_timeouts", token.timeouts)
    case.nontrivial = token.switches > 0


class Yielding(np.ndarray):
    """An array that gives other threads a chance in every operation that creates a view or result."""

    def __array_finalize__(self, obj):
        if YIELD[0]:
            log_switch()
            time.sleep(0)


YIELD = [False]
LAST = [0, 0, 0]


def log_switch():
    me = threading.get_ident()
    LAST[2] += 1
    if LAST[0] != me:
        LAST[0] = me
        LAST[1] += 1


def stress(case):
    """Free-running threads, tiny switch interval, yields in callbacks and array operations."""
    rng = case.rng
    shared = rng.random() < 0.6
    nt = int(rng.integers(3, 6))

    def slow():
        if YIELD[0]:
            log_switch()
            time.sleep(0)
    wrap = (lambda a: a.view(Yielding)) if rng.random() < 0.6 else None
    objs, plans = start(case, sources(case, slow, wrap), nt, int(rng.integers(3, 10)), shared)
    old = sys.getswitchinterval()
    LAST[:] = [0, 0, 0]
    sys.setswitchinterval(1e-6)
    YIELD[0] = True
    try:
        out = go(case, objs, plans)
    finally:
        YIELD[0] = False
        sys.setswitchinterval(old)
    judge(case, objs, plans, out)
    case.seen(str(LAST[1:]))
    case.tag("stress shared object" if shared else "stress own objects", f"stress {nt} threads")
    case.desc.update(threads=nt, shared=shared, observed_switches=LAST[1])
    case.count("thread_switches", LAST[1])
    case.count("yield_points", LAST[2])
    case.nontrivial = LAST[1] > nt or LAST[2] == 0


def first(case):
    """Threads creating and using their own objects from the start."""
    rng = case.rng
    srcs = sources(case)
    nt = 3
    jobs = [[(s, *s.job()) for s in (srcs[int(i)] for i in rng.integers(0, len(srcs), 2))] for _ in range(nt)]
    want = []
    for plan in jobs:
        want.append([[np.array(a, float) for a in computed(case, "sequential " + k, getattr(s.make(True), k), *a)]
                     for s, k, a in plan])
    token = Token(rng, nt, 0.2, rng.random() < .5, 4000)
    out = [None] * nt

    def body(me):
        try:
            with token.cv:
                token.wait(me)
            sys.settrace(token.tracer(me))
            got = []
            for s, k, a in jobs[me]:
                got.append(getattr(s.make(), k)(*a))
            out[me] = got
        except Exception as e:  # noqa: BLE001
            out[me] = e
        finally:
            sys.settrace(None)
            token.done(me)
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(nt)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(120)
    for me in range(nt):
        if not isinstance(out[me], list):
            raise Violation(f"concurrent construction and use raised {out[me]!r}")
        for (_, k, _), got, w in zip(jobs[me], out[me], want[me]):
            for a, b in zip(got, w):
                case.check(near(a, b), f"{k} on a concurrently built object differs from the sequential result")
    case.count("thread_switches", token.switches)
    case.count("schedule_points", token.events)
    case.count("schedules_observed")
    case.seen(str(token.trace))
    case.nontrivial = token.switches > 0


FAMILIES = {
    "scheduled": (500, 6000, scheduled),
    "stress": (160, 2500, stress),
    "first": (150, 1500, first),
}
