"""C16: injected failures at every step and callback, and the life after them."""

import ast
import functools
import os
import sys
import warnings
from asyncio import CancelledError

import kalmankit
import numpy as np

from kk import gen, ref
from kk.c14 import Guard, numeric_state, state_verify
from kk.common import ASSUME, EKF, KF, Skip, Violation, ekf_bands, tame

PROP = "C16"
RULE = ("exactly singular innovation covariances placed at each step of filter/smooth/update, and exceptions raised by "
        "each user function at each of its call positions, and interrupts raised between library lines; monitors: the "
        "exception the caller receives, input buffers, earlier gain entries, process-wide state, and later calls on the same object compared with a fresh "
        "one; non-trivial = the failure was reached and a later call was compared; distinct by input and fault digest")
ASSUMPTIONS = ASSUME
LIB = os.path.dirname(os.path.abspath(kalmankit.__file__)) + os.sep


class Boom(Exception):
    pass


class Singular(np.linalg.LinAlgError):
    pass


class Quiet(BaseException):
    pass


RAISES = [lambda: Boom("boom"), lambda: ValueError("v"), lambda: KeyError("k"), lambda: ZeroDivisionError("z"),
          lambda: np.linalg.LinAlgError("from the user"), lambda: KeyboardInterrupt(), lambda: Quiet(),
          lambda: TypeError("t"), lambda: IndexError("i"), lambda: AttributeError("a"), lambda: FloatingPointError("f"),
          lambda: RuntimeError("r"), lambda: MemoryError("m"), lambda: StopIteration("s"), lambda: GeneratorExit(), lambda: SystemExit(3),
          lambda: AssertionError("x"), lambda: OSError(5, "o"), lambda: TimeoutError("t"), lambda: ConnectionResetError("c"),
          lambda: OverflowError("o"), lambda: ArithmeticError("a"), lambda: NotImplementedError("n"), lambda: RecursionError("r"),
          lambda: StopAsyncIteration("s"), lambda: UserWarning("w"), lambda: DeprecationWarning("d"), lambda: EOFError("e"),
          lambda: UnicodeDecodeError("utf8", b"x", 0, 1, "u"), lambda: BufferError("b"), lambda: Singular("own"),
          lambda: ExceptionGroup("g", [ValueError("v")]), lambda: CancelledError(), lambda: LookupError("l")]


def divide():
    np.divide(np.ones(2), np.zeros(2))


def overflow():
    np.multiply(np.full(2, 1e300), 1e300)


def warn():
    warnings.warn("the user's own", UserWarning, stacklevel=1)


class Provoked:
    """A fault that only exists because of the numeric and warning settings the caller works under."""

    def __init__(self, act):
        self.act, self.raised = act, None

    def __call__(self):
        try:
            self.act()
        except Exception as e:  # noqa: BLE001
            self.raised = e
            raise

    def under(self, fn):
        def g(*args):
            flag = {divide: "divide", overflow: "over"}.get(self.act)
            with warnings.catch_warnings(), np.errstate(**({flag: "raise"} if flag else {})):
                if not flag:
                    warnings.simplefilter("error", UserWarning)
                return fn(*args)
        return g


def expect(case, what, fn, args, same=None, fired=lambda: True):
    """fn must raise; LinAlgError, or exactly the given instance (unless the fault was never reached)."""
    case.count("library_calls")
    before = numeric_state()
    try:
        out = fn(*args)
    except BaseException as e:  # noqa: BLE001
        if isinstance(same, Provoked):
            same = same.raised
        if same is not None:
            if e is not same:
                raise Violation(f"{what}: the user function's {same!r} reached the caller as "
                                f"{type(e).__name__}: {str(e)[:100]}") from None
            case.check(e.__cause__ is None, f"{what}: the user function's exception was given a cause")
        elif not isinstance(e, np.linalg.LinAlgError):
            if not isinstance(e, Exception):
                raise
            raise Violation(f"{what}: singular innovation covariance raised {type(e).__name__}: {e}") from None
        state_verify(case, what, before)
        case.count("failures_observed")
        return
    if not fired():
        case.count("faults_not_reached")
        return
    if isinstance(same, Provoked):
        raise Violation(f"{what}: {same.act.__name__} in the user function did not raise under the caller's own settings")
    if same is not None:
        raise Violation(f"{what}: the user function's {same!r} was swallowed")
    raise Violation(f"{what}: singular innovation covariance returned numbers: {np.asarray(out[0]).reshape(-1)[:4].tolist()}")


def near(case, what, got, want, tol=1e-7):
    for g, w in zip(got, want):
        g, w = np.asarray(g, float), np.asarray(w, float)
        case.close(what, g, w, tol, np.max(np.abs(w)) + 1e-300)


def afterwards(case, what, obj, make, jobs, guard, kept, whole=()):
    """Later calls on the failed object against fresh ones, gains appended at the end.

    whole: the gains the failed call would have recorded had it not failed, up to the step that failed."""
    rng = case.rng
    guard.verify(what)
    g = obj.kalman_gains
    case.check(len(g) >= len(kept), f"{what}: recorded gains disappeared")
    for a, b in zip(g, kept):
        case.check(np.array_equal(a, b), f"{what}: an earlier gain changed")
    extra = g[len(kept):]
    case.check(len(extra) <= len(whole), f"{what} left {len(extra)} gains, at most {len(whole)} updates were performed")
    for a, b in zip(extra, whole):
        near(case, f"gain left by {what}", [a], [b])
    case.count("gains_left_by_failed_calls", len(extra))
    for _ in range(int(rng.integers(1, 4))):
        kind, args, k = jobs[int(rng.integers(len(jobs)))]
        fresh = make()
        want = case.lib("fresh " + kind, getattr(fresh, kind), *args)
        n0 = len(obj.kalman_gains)
        old = [np.array(x) for x in obj.kalman_gains]
        got = case.lib(f"{kind} after {what}", getattr(obj, kind), *args)
        near(case, f"{kind} after {what}", got, want)
        g = obj.kalman_gains
        case.check(len(g) == n0 + k and len(fresh.kalman_gains) == k,
                   f"{kind} after {what} recorded {len(g) - n0} gains, expected {k}")
        for a, b in zip(g[:n0], old):
            case.check(np.array_equal(a, b), f"{kind} after {what} changed earlier gains")
        for a, b in zip(g[n0:], fresh.kalman_gains):
            near(case, f"gain of {kind} after {what}", [a], [b])
        guard.verify(f"{kind} after {what}")
        case.count("later_calls_compared")
    case.nontrivial = True


def clean(case, make, kind, args):
    """The gains of an undisturbed call on a fresh object."""
    obj = make()
    case.lib("undisturbed " + kind, getattr(obj, kind), *args)
    return snapshot(obj)


def snapshot(obj):
    return [np.array(g) for g in obj.kalman_gains]


def kf_model(case):
    rng = case.rng
    mod = gen.linear(case, smooth=True, T=int(rng.integers(1, 9)), scaled=False, big=False)
    r = ref.recursive(mod, True)
    b = ref.bands(mod, r, True)
    ref.require(b)
    if not max(b.tx.max(), b.tP.max(), b.stx.max(), b.stP.max()) < 1e-6:
        raise Skip("ill-conditioned")
    regular(mod.H[0] @ (mod.P0 + np.eye(mod.n)) @ mod.H[0].T + mod.R[0])
    return mod


def regular(S):
    """The direct update the checks use must be well posed."""
    if not np.linalg.cond(S) < 1e10:
        raise Skip("ill-conditioned")


def break_step(rng, mod, j):
    """The model with an exactly singular innovation covariance at step j; steps before stay regular."""
    kind = gen.pick(rng, "zero row", "zero row", "all zero", "no noise", "certain", "duplicate")
    H, R, Q, P0, A = (a.copy() for a in (mod.H, mod.R, mod.Q, mod.P0, mod.A))
    m, n = mod.m, mod.n
    if kind == "duplicate" and (j or m < 2):
        kind = "zero row"
    if kind == "zero row":
        i = int(rng.integers(m))
        H[j, i] = 0
        R[j, i] = R[j, :, i] = 0
    elif kind in ("all zero", "no noise"):
        H[j] = 0
        R[j] = 0
        if kind == "no noise":
            H[j] = 0
    elif kind == "certain":
        P0[:] = 0
        Q[:j + 1] = 0
        R[j] = 0
    else:
        A[0] = np.eye(n)
        P0 = np.diag(rng.integers(1, 5, n)).astype(float)
        Q[0] = np.diag(rng.integers(0, 3, n))
        H[0] = rng.integers(-2, 3, (m, n))
        H[0, 1] = H[0, 0]
        R[0] = 0
        # other rows independent noise keeps them regular
        for i in range(2, m):
            R[0, i, i] = 1
    return mod.but(H=H, R=R, Q=Q, P0=P0, A=A), kind


def kf_singular(case):
    rng = case.rng
    mod = kf_model(case)
    j = int(rng.integers(mod.T))
    bad, kind = break_step(rng, mod, j)
    case.tag("singular:" + kind)
    case.desc.update(singular=kind, step=j)
    case.seen(bad.H, bad.R, bad.Q, bad.P0)
    guard = Guard(case)
    d = gen.hand_over(case, bad, gen.Form(laid=rng.random() < .4))
    for k, a in d.items():
        guard.add(k, a)
    good = gen.plain_kf(mod)
    make = lambda: case.lib("KalmanFilter()", gen.kf_from, KF, d)
    obj = make()
    jobs = [("update", (mod.H[0], mod.x0, mod.P0 + np.eye(mod.n), mod.Z[0], mod.R[0]), 1),
            ("predict", (mod.A[0], mod.x0, None, None, mod.P0, mod.Q[0]), 0)]
    if j > 0:
        cut = slice(0, j)
        U = None if d["U"] is None else d["U"][cut]
        jobs += [("filter", (d["Z"][cut], U), j)] * 3
        if kind != "certain":
            jobs += [("smooth", (d["Z"][cut], U), j)] * 2
    for _ in range(int(rng.integers(0, 3))):
        kk, args, _ = jobs[int(rng.integers(len(jobs)))]
        case.lib("earlier " + kk, getattr(obj, kk), *args)
    whole = clean(case, make, "filter", (d["Z"][:j], None if d["U"] is None else d["U"][:j])) if j else ()
    for _ in range(int(rng.integers(1, 3))):
        kept = snapshot(obj)
        if rng.random() < 0.25:
            what = "a failed update"
            P = np.zeros((mod.n, mod.n)) if kind == "certain" else mod.P0
            H, R = bad.H[j], bad.R[j]
            if kind == "duplicate":
                P = bad.P0 + bad.Q[0]
            expect(case, "update", obj.update, (H, mod.x0, P, mod.Z[j], R))
        else:
            call = gen.pick(rng, "filter", "smooth")
            what = f"a {call} that failed at step {j}"
            expect(case, f"{call} (step {j}, {kind})", getattr(obj, call), (d["Z"], d["U"]))
        afterwards(case, what, obj, make, jobs, guard, kept, whole if " update" not in what else ())


def ekf_model(case):
    rng = case.rng
    mod = tame(case, gen.nonlinear(case, smooth=True, T=int(rng.integers(1, 8)), big=False))[0]
    _, b = ekf_bands(mod, True)
    if not max(b.stx.max(), b.stP.max(), b.tP.max()) < 1e-6:
        raise Skip("ill-conditioned")
    H0 = np.asarray(mod.jac_h(mod.x0), float)
    regular(H0 @ (mod.P0 + np.eye(mod.n)) @ H0.T + mod.R[0])
    return mod


class Faulty:
    """mod with callbacks that raise (or go blind) at a chosen call."""

    def __init__(self, mod):
        self.n = dict(f=0, h=0, jac_a=0, jac_h=0)
        self.at = {}
        self.mod = mod.but(f=self.two("f", mod.f), jac_a=self.two("jac_a", mod.jac_a), h=self.one("h", mod.h),
                           jac_h=self.one("jac_h", mod.jac_h))

    def hit(self, name):
        self.n[name] += 1
        e = self.at.get(name)
        if e and e[0] == self.n[name]:
            if callable(e[1]):
                return e[1]()
            raise e[1]

    def two(self, name, fn):
        def g(x, u, /):
            self.hit(name)
            return fn(x, u)
        return g

    def one(self, name, fn):
        def g(x, /):
            self.hit(name)
            return fn(x)
        return g

    def reset(self):
        self.n = dict.fromkeys(self.n, 0)
        self.at = {}


def ekf_jobs(mod, d):
    u = np.full(mod.m, np.nan) if mod.U is None else mod.U[0]
    return [("filter", (d["Z"], d["U"]), mod.T), ("smooth", (d["Z"], d["U"]), mod.T),
            ("update", (mod.x0, mod.P0 + np.eye(mod.n), mod.Z[0], mod.R[0]), 1),
            ("predict", (mod.x0, u, mod.P0, mod.Q[0]), 0)]


def ekf_raises(case):
    """Every user function, a random selection of every call position."""
    rng = case.rng
    mod = ekf_model(case)
    guard = Guard(case)
    f = gen.form(case, mod, plain=.5)
    f.x_col = False
    d = gen.hand_over_nl(case, mod, f)
    for k, a in d.items():
        guard.add(k, a)
    fy = Faulty(mod)
    make = lambda: case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, d, mod)
    obj = case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, d, fy.mod)
    jobs = ekf_jobs(mod, d)
    done = 0
    for kind, args, _ in jobs:
        fy.reset()
        case.lib(kind, getattr(make_with(case, d, fy), kind), *args)
        counts = dict(fy.n)
        whole = clean(case, make, kind, args)
        for name, c in counts.items():
            if not c:
                continue
            where = {1, c} | {int(v) for v in rng.integers(1, c + 1, 2)}
            for at in where if case.tier == "thorough" else rng.permutation(sorted(where))[:2]:
                e = RAISES[int(rng.integers(len(RAISES)))]()
                call = getattr(obj, kind)
                if rng.random() < .3:
                    e = Provoked(gen.pick(rng, divide, overflow, warn))
                    call = e.under(call)
                    case.count("faults_of_the_callers_settings")
                fy.reset()
                fy.at = {name: (int(at), e)}
                kept = snapshot(obj)
                expect(case, f"{kind} ({name} call {at} of {c})", call, args, same=e)
                fy.reset()
                case.tag(f"raised in {name}")
                afterwards(case, f"a {kind} that failed in {name}", obj, make, jobs, guard, kept, whole)
                done += 1
    case.count("faults_injected", done)
    case.seen(repr(done))


def make_with(case, d, fy):
    return case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, d, fy.mod)


def ekf_singular(case):
    rng = case.rng
    mod = ekf_model(case)
    j = int(rng.integers(mod.T))
    R = mod.R.copy()
    kind = gen.pick(rng, "zero row", "all zero")
    i = int(rng.integers(mod.m))
    R[j, i] = 0
    R[j, :, i] = 0
    if kind == "all zero":
        R[j] = 0
    case.tag("EKF singular:" + kind)
    case.desc.update(singular=kind, step=j)
    # blind at the marked step: the observation Jacobian depends on which R is in use through a counter-free
    # switch on the state would change the model, so the Jacobian is blind everywhere and only R[j] is singular
    rows = [i] if kind == "zero row" else list(range(mod.m))

    def jac_h(x, /):
        J = np.array(mod.jac_h(x))
        J[rows] = 0
        return J
    bad = mod.but(R=R, jac_h=jac_h)
    case.seen(R)
    guard = Guard(case)
    d = gen.hand_over_nl(case, bad, gen.Form(laid=rng.random() < .4))
    for k, a in d.items():
        guard.add(k, a)
    make = lambda: case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, d, bad)
    obj = make()
    u = np.full(mod.m, np.nan) if mod.U is None else mod.U[0]
    jobs = [("update", (mod.x0, mod.P0 + np.eye(mod.n), mod.Z[0], mod.R[0]), 1), ("predict", (mod.x0, u, mod.P0, mod.Q[0]), 0)]
    if j:
        U = None if d["U"] is None else d["U"][:j]
        jobs += [("filter", (d["Z"][:j], U), j), ("smooth", (d["Z"][:j], U), j)] * 2
    for _ in range(int(rng.integers(0, 3))):
        kk, args, _ = jobs[int(rng.integers(len(jobs)))]
        case.lib("earlier " + kk, getattr(obj, kk), *args)
    whole = clean(case, make, "filter", (d["Z"][:j], None if d["U"] is None else d["U"][:j])) if j else ()
    for call in ("filter", "smooth", "update"):
        kept = snapshot(obj)
        if call == "update":
            expect(case, "update", obj.update, (mod.x0, mod.P0, mod.Z[j], R[j]))
        else:
            expect(case, f"{call} (step {j}, {kind})", getattr(obj, call), (d["Z"], d["U"]))
        afterwards(case, f"a failed {call}", obj, make, jobs, guard, kept, whole if call != "update" else ())


class Quit(BaseException):
    pass


ASYNC = [KeyboardInterrupt, KeyboardInterrupt, MemoryError, Quit, lambda: SystemExit(4), CancelledError]


@functools.lru_cache(None)
def unsafe_lines(path):
    """Lines at which no Python code could be safe against an interrupt: block entries and clean-up code."""
    out = set()
    for node in ast.walk(ast.parse(open(path).read())):
        if isinstance(node, (ast.With, ast.Try)):
            out |= set(range(node.lineno, node.body[0].lineno))
        if isinstance(node, ast.Try):
            for b in node.finalbody + [x for h in node.handlers for x in [h, *h.body]]:
                out |= set(range(b.lineno, b.end_lineno + 1))
    return out


class Interrupter:
    """Counts the lines the library executes, and raises at a chosen one."""

    def __init__(self, at=None, exc=None):
        self.at, self.exc, self.n, self.where = at, exc, 0, None

    def __call__(self, frame, event, _arg):
        if not frame.f_code.co_filename.startswith(LIB):
            return None
        if event == "line" and frame.f_lineno not in unsafe_lines(frame.f_code.co_filename):
            self.n += 1
            if self.n == self.at:
                self.where = f"{frame.f_code.co_name}:{frame.f_lineno}"
                raise self.exc
        return self

    def run(self, fn, *args):
        old = sys.gettrace()
        sys.settrace(self)
        try:
            return fn(*args)
        finally:
            sys.settrace(old)


def interrupted(case):
    """An exception arrives between any two lines of the library, as Ctrl-C or a cancelled task delivers it."""
    rng = case.rng
    linear = rng.random() < .55
    mod = kf_model(case) if linear else ekf_model(case)
    guard = Guard(case)
    if linear:
        d = gen.hand_over(case, mod, gen.Form(laid=rng.random() < .3))
        make = lambda: case.lib("KalmanFilter()", gen.kf_from, KF, d)
        jobs = [("filter", (d["Z"], d["U"]), mod.T), ("smooth", (d["Z"], d["U"]), mod.T),
                ("update", (mod.H[0], mod.x0, mod.P0 + np.eye(mod.n), mod.Z[0], mod.R[0]), 1),
                ("predict", (mod.A[0], mod.x0, None, None, mod.P0, mod.Q[0]), 0)]
    else:
        d = gen.hand_over_nl(case, mod, gen.Form(laid=rng.random() < .3))
        make = lambda: case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, d, mod)
        jobs = ekf_jobs(mod, d)
    case.seen(mod.Z, mod.x0)
    for k, a in d.items():
        guard.add(k, a)
    if mod.T > 1:
        j = int(rng.integers(1, mod.T))
        part = (d["Z"][:j], None if d["U"] is None else d["U"][:j])
        jobs += [(gen.pick(rng, "filter", "smooth"), part, j)]
    obj = make()
    for i in rng.permutation(len(jobs)):
        kind, args, _ = jobs[i]
        whole = clean(case, make, kind, args)
        probe = Interrupter()
        case.lib(kind, probe.run, getattr(make(), kind), *args)
        if not probe.n:
            case.count("calls_without_library_lines")
            continue
        where = {int(v) for v in rng.integers(1, probe.n + 1, 4)} if kind in ("filter", "smooth") else {
            int(rng.integers(1, probe.n + 1))}
        for at in sorted(where):
            e = gen.pick(rng, *ASYNC)()
            kept = snapshot(obj)
            it = Interrupter(at, e)
            expect(case, f"{kind} interrupted at line event {at} of {probe.n}", it.run, (getattr(obj, kind), *args),
                   same=e, fired=lambda it=it: it.where)
            if not it.where:
                continue
            case.tag("interrupted in " + it.where.split(":")[0])
            afterwards(case, f"a {kind} interrupted at {it.where}", obj, make, jobs, guard, kept, whole)
            case.count("interrupts_delivered")


FAMILIES = {
    "interrupted": (250, 4000, interrupted),
    "kf_singular": (500, 8000, kf_singular),
    "ekf_singular": (150, 2500, ekf_singular),
    "ekf_raises": (150, 2000, ekf_raises),
}
