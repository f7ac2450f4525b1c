"""C26: a filter always works from the model and the gain list it currently holds."""

import numpy as np

from kk import gen, portable, ref
from kk.common import ASSUME, EKF, KF, agree_gains, computed, ekf64, ekf_bands

PROP = "C26"
RULE = ("a filter in use has parts of its model replaced (attributes assigned, arrays it holds overwritten as a whole, row "
        "by row or scaled, user functions swapped or their parameters changed, steps added), its initial estimate moved on "
        "from chunk to chunk, its gain list emptied or replaced, between random calls; monitors: every call against the own "
        "oracle of the model held at that moment, recorded gains, attributes unchanged by calls; non-trivial = a call after "
        "an edit was compared; distinct by input digest and edits")
ASSUMPTIONS = ASSUME

ATTR = dict(A="A", B="B", H="H", Q="Q", R="R", x0="xk", P0="Pk")


def near(case, what, x, P, r, b, smooth=False):
    """Where rounding leaves no doubt: to a millionth of the scale."""
    rx, rP = (r.xs, r.Ps) if smooth else (r.x, r.P)
    sx, sP, tx, tP = (b.ssx, b.ssP, b.stx, b.stP) if smooth else (b.sx, b.sP, b.tx, b.tP)
    ok = (tx < 1e-5) & (tP < 1e-5)
    case.count("steps_decided", int(ok.sum()))
    case.count("steps_undecided", int((~ok).sum()))
    if ok.any():
        case.close(f"{what} mean", np.asarray(x)[ok], np.asarray(rx)[ok], 1e-6 + 100 * tx[ok][:, None], sx[ok])
        case.close(f"{what} covariance", np.asarray(P)[ok], np.asarray(rP)[ok], 1e-6 + 100 * tP[ok][:, None, None], sP[ok])


class Live:
    """A filter in use together with the model it should be working from."""

    def __init__(self, case, mod, f, linear):
        self.case, self.rng, self.linear, self.f = case, case.rng, linear, f
        self.mod = mod
        d = self.handed(mod)
        size = mod.n if f.size else None
        self.obj = (case.lib("KalmanFilter()", gen.kf_from, KF, d, size) if linear
                    else case.lib("ExtendedKalmanFilter()", gen.ekf_from, EKF, d, mod))
        self.Z, self.U = d["Z"], d["U"]
        self.log = []

    def handed(self, mod):
        return gen.hand_over(self.case, mod, self.f) if self.linear else gen.hand_over_nl(self.case, mod, self.f)

    def roles(self):
        return ["A", "H", "Q", "R", "x0", "P0"] + ["B"] * (self.mod.B is not None) if self.linear else ["Q", "R", "x0", "P0"]

    # ---- edits, each mirrored in self.mod
    def replace(self, new, roles, how):
        """Take over the given parts of another model of the same dimensions."""
        d = self.handed(new)
        cur = {}
        for role in roles:
            want, val = getattr(new, role), d[role]
            if val is None:
                continue
            now = getattr(self.obj, ATTR[role])
            fits = isinstance(now, np.ndarray) and now.flags.writeable and now.shape == val.shape and now.dtype == val.dtype
            way = how if fits else "assign"
            if way == "rows" and role not in ("x0", "P0"):
                ks = [int(k) for k in np.flatnonzero(self.rng.random(len(want)) < .5)]
                mix = np.array(getattr(self.mod, role))
                for k in ks:
                    now[k], mix[k] = val[k], want[k]
                want = mix
            elif way in ("rows", "overwrite"):
                now[...] = val
            elif way == "scale" and role in ("Q", "R", "P0"):
                c = float(2.0 ** self.rng.integers(-3, 4))
                now *= c
                want = np.array(getattr(self.mod, role)) * c
            else:
                setattr(self.obj, ATTR[role], val)
                way = "assign"
            cur[role] = np.array(want)
            self.log.append(f"{way} {role}")
            self.case.count("model_parts_replaced")
            self.case.tag(f"{way} {role}")
        self.mod = self.mod.but(**cur)

    def functions(self, new, which):
        """Swap user functions (each together with its Jacobian)."""
        if "f" in which:
            self.obj.f, self.obj.jacobian_A = new.f, new.jac_a
            self.mod = self.mod.but(f=new.f, jac_a=new.jac_a)
        if "h" in which:
            self.obj.h, self.obj.jacobian_H = new.h, new.jac_h
            self.mod = self.mod.but(h=new.h, jac_h=new.jac_h)
        self.log.append("swap " + which)
        self.case.count("functions_swapped")
        self.case.tag("swap " + which)

    def tidy(self):
        """The caller empties, cuts or replaces the gain list."""
        g = self.obj.kalman_gains
        how = gen.pick(self.rng, "clear", "new", "cut", "pop", "tuple back")
        if how == "clear":
            g.clear()
        elif how == "new":
            self.obj.kalman_gains = []
        elif how == "cut":
            del g[:int(self.rng.integers(0, len(g) + 1))]
        elif how == "pop" and g:
            g.pop()
        else:
            self.obj.kalman_gains = list(g)
        self.log.append("gains: " + how)
        self.case.tag("gains: " + how)
        self.case.count("gain_lists_edited")

    # ---- calls
    def call(self, kind=None, mod=None):
        """One run over the data, judged by the model held now."""
        case, mod = self.case, mod or self.mod
        kind = kind or gen.pick(self.rng, "filter", "filter", "smooth")
        smooth = kind == "smooth"
        if self.linear:
            r = ref.recursive(mod, True)
            b = ref.bands(mod, r, True)
        else:
            r, b = ekf_bands(mod, True)
        ref.require(b)
        held = {k: np.array(getattr(self.obj, ATTR[k])) for k in self.roles()}
        before = list(self.obj.kalman_gains)
        T = mod.T
        what = f"{kind} after {', '.join(self.log[-4:]) or 'nothing'}"
        x, P = computed(case, what, getattr(self.obj, kind), self.Z, self.U)
        case.check(np.shape(x) == (T, mod.n) and np.shape(P) == (T, mod.n, mod.n), f"{what}: shapes {np.shape(x)}, {np.shape(P)}")
        near(case, what, x, P, r, b, smooth)
        after = list(self.obj.kalman_gains)
        case.check(len(after) == len(before) + T, f"{what}: gain list went from {len(before)} to {len(after)} with {T} updates")
        for i, (p, q) in enumerate(zip(before, after)):
            case.check(p is q or np.array_equal(p, q, equal_nan=True), f"{what}: earlier gain {i} changed")
        if self.linear:
            agree_gains(case, what, after[len(before):], mod, r)
        else:
            w = ekf64(mod)
            for k in np.flatnonzero((b.tx < 1e-6) & (b.tP < 1e-6)):
                s = np.max(np.abs(w.K[k])) + np.sqrt(np.max(np.abs(w.Pp[k])) / max(np.min(np.diag(mod.R[k])), 1e-300))
                case.close(f"{what}: gain {k}", after[len(before) + k], w.K[k], 1e-4, s)
        for k, a in held.items():
            case.check(np.array_equal(getattr(self.obj, ATTR[k]), a, equal_nan=True), f"{what} changed the attribute {ATTR[k]}")
        case.count("calls_compared")
        if self.log:
            case.count("calls_after_edits")
            case.nontrivial = True
        return x, P

    def chatter(self):
        """Calls that must leave no trace but gains."""
        mod = self.mod
        kind = gen.pick(self.rng, "none", "none", "predict", "update", "failing", "short")
        o = self.obj
        try:
            with np.errstate(all="ignore"):
                if kind == "predict":
                    a = (mod.x0, None, mod.P0, mod.Q[0])
                    o.predict(mod.A[0], a[0], None, *a[1:]) if self.linear else o.predict(
                        a[0], np.full(mod.m, np.nan) if mod.U is None else mod.U[0], *a[2:])
                elif kind == "update":
                    a = (mod.x0, mod.P0 + np.eye(mod.n), mod.Z[0], mod.R[0])
                    o.update(*((mod.H[0],) if self.linear else ()), *a)
                elif kind == "failing":
                    o.filter([None] * mod.T)
                elif kind == "short":
                    o.filter(self.Z[:1], None if self.U is None else self.U[:1])
        except Exception:  # noqa: BLE001
            self.case.count("failed_calls_in_between")


def steady(case):
    return dict(smooth=True, scaled=False, big=False)


def linear(case):
    """The standard filter, edited between calls."""
    rng = case.rng
    T, n, m, p = int(rng.integers(1, 12)), *(int(rng.integers(1, 4)) for _ in range(3))
    how = "both" if rng.random() < .6 else None
    mods = [gen.linear(case, T=T, n=n, m=m, p=p, control=how, **steady(case)) for _ in range(int(rng.integers(2, 4)))]
    f = gen.form(case, mods[0], plain=.5)
    live = Live(case, mods[0], f, True)
    if rng.random() < .7:
        live.call()
    for _ in range(int(rng.integers(1, 5))):
        new = mods[int(rng.integers(len(mods)))]
        if rng.random() < .2:
            live.tidy()
        roles = live.roles()
        some = [r for r in roles if rng.random() < .4] or [roles[int(rng.integers(len(roles)))]]
        if rng.random() < .15:
            some = roles
        live.replace(new, some, gen.pick(rng, "assign", "overwrite", "rows", "scale"))
        if rng.random() < .3:  # other data too
            d = live.handed(new)
            live.Z = d["Z"]
            live.mod = live.mod.but(Z=new.Z)
            if live.mod.B is None or new.U is not None:
                live.U = d["U"]
                live.mod = live.mod.but(U=new.U)
        live.chatter()
        live.call()
    case.seen("edits", "/".join(live.log))
    case.desc.update(edits=live.log[-8:])


def switched(case):
    """Control given to a filter constructed without any, and taken away again."""
    rng = case.rng
    T, n, m, p = int(rng.integers(1, 10)), *(int(rng.integers(1, 4)) for _ in range(3))
    mod = gen.linear(case, T=T, n=n, m=m, p=p, control="both", **steady(case))
    live = Live(case, mod.but(B=None), gen.Form(), True)
    live.U = mod.U.copy()
    live.call()
    for _ in range(int(rng.integers(1, 4))):
        if live.mod.B is None:
            B = mod.B * float(rng.choice([1, -2]))
            live.obj.B = B.copy()
            live.mod = live.mod.but(B=B)
            live.log.append("control on")
        elif rng.random() < .5:
            live.obj.B = np.full_like(mod.B, np.nan)
            live.mod = live.mod.but(B=None)
            live.log.append("control off")
        else:
            k = int(rng.integers(T))
            live.obj.B[k] = np.nan
            B = live.mod.B.copy()
            B[k] = np.nan
            live.mod = live.mod.but(B=B)
            live.log.append("control off at a step")
        case.count("model_parts_replaced")
        live.call()
    case.tag("control switched")
    case.seen("switched", "/".join(live.log))


def lengths(case):
    """Longer and shorter horizons, more and fewer measurements, one after another."""
    rng = case.rng
    n = int(rng.integers(2, 4))
    kind = rng.random() < .6
    sizes = [tuple(int(v) for v in rng.integers(1, 5, 2)) for _ in range(1 if rng.random() < .3 else 3)] * 3
    T = gen.pick(rng, None, None, int(rng.integers(1, 12)))
    mods = [gen.linear(case, T=T or int(rng.integers(1, 30)), n=n, m=m, p=p, control="both", **steady(case)) if kind else
            gen.nonlinear(case, T=T or int(rng.integers(1, 12)), n=n, m=m, smooth=True, big=False, control=False)
            for m, p in sizes[:3]]
    live = Live(case, mods[0], gen.Form(), kind)
    live.call()
    for new in mods[1:]:
        if not kind:
            live.functions(new, "fh")
        live.replace(new, live.roles(), "assign")
        live.mod = new
        d = live.handed(new)
        live.Z, live.U = d["Z"], d["U"]
        live.call()
    case.tag("horizon changed", f"{len(set(q.m for q in mods))} numbers of measurements")
    case.seen("lengths", str([q.T for q in mods]))


def extended(case):
    """The extended filter, edited between calls."""
    rng = case.rng
    T, n, m = (int(v) for v in rng.integers([1, 2, 1], [9, 4, 4]))
    net = None
    mods = [gen.nonlinear(case, T=T, n=n, m=m, smooth=True, big=False, control=False) for _ in range(2)]
    if rng.random() < .4:  # functions over parameters the caller can change
        net = portable.Net(rng, n, m, 1)
        kind, fns = portable.callbacks(rng, net)
        mods[0] = mods[0].but(**fns, scalar_h=False)
        case.tag("callbacks:" + kind)
    f = gen.form(case, mods[0], plain=.5)
    f.x_col = False
    live = Live(case, mods[0], f, False)
    if rng.random() < .7:
        live.call()
    for _ in range(int(rng.integers(1, 5))):
        new = mods[int(rng.integers(2))]
        if rng.random() < .2:
            live.tidy()
        if rng.random() < .5:
            if net is not None and rng.random() < .6:
                for a in vars(net).values():
                    a *= rng.uniform(.7, 1.05)
                live.log.append("parameters")
                case.count("function_parameters_changed")
            else:
                live.functions(new, gen.pick(rng, "f", "h", "fh"))
        if rng.random() < .7 or not live.log:
            roles = live.roles()
            some = [r for r in roles if rng.random() < .4] or [roles[int(rng.integers(len(roles)))]]
            live.replace(new, some, gen.pick(rng, "assign", "overwrite", "rows", "scale"))
        live.chatter()
        live.call()
    case.seen("edits", "/".join(live.log))
    case.desc.update(edits=live.log[-8:])


def online(case):
    """One filter moved along a long sequence chunk by chunk, its arrays reused as buffers."""
    rng = case.rng
    T = int(gen.pick(rng, 5, 12, 30, 60))
    n, m, p = (int(rng.integers(1, 4)) for _ in range(3))
    is_lin = rng.random() < .6
    if is_lin:
        mod = gen.linear(case, T=T, n=n, m=m, p=p, control=gen.pick(rng, "both", "none"), **steady(case))
        r = ref.recursive(mod, True)
        b = ref.bands(mod, r, True)
    else:
        mod = gen.nonlinear(case, T=T, n=n, m=m, smooth=True, big=False)
        r, b = ekf_bands(mod)
        n = mod.n
    ref.require(b)
    step = int(gen.pick(rng, 1, 1, 2, 5))
    buffers = rng.random() < .6
    case.tag("reused buffers" if buffers else "new arrays", f"chunks of {step}")
    first = mod.cut(0, step)
    live = Live(case, first, gen.Form(), is_lin)
    o = live.obj
    xs, Ps = np.zeros((T, n)), np.zeros((T, n, n))
    Zb, Ub = np.array(first.Z), None if first.U is None else np.array(first.U)
    for k in range(0, T, step):
        part = mod.cut(k, k + step)
        q = part.T
        if k:
            for role in (["A", "B", "H"] if is_lin else []) + ["Q", "R"]:
                val = getattr(part, role)
                if val is None:
                    continue
                if buffers:
                    getattr(o, role)[:q] = val
                else:
                    setattr(o, role, np.array(val))
            if buffers:
                o.xk[...], o.Pk[...] = xs[k - 1], Ps[k - 1]
            else:
                o.xk, o.Pk = xs[k - 1].copy(), Ps[k - 1].copy()
            Zb[:q] = part.Z
            if Ub is not None:
                Ub[:q] = part.U
        x, P = computed(case, "filter of a chunk", o.filter, Zb[:q], None if Ub is None else Ub[:q])
        case.check(np.shape(x) == (q, n), f"chunk at {k}: shape {np.shape(x)}")
        xs[k:k + q], Ps[k:k + q] = x, P
        case.count("chunks_filtered")
    near(case, "chunks of one filter moved along", xs, Ps, r, b)
    case.check(len(o.kalman_gains) == T, f"{len(o.kalman_gains)} gains recorded over {T} updates in chunks")
    if is_lin:
        agree_gains(case, "chunks", o.kalman_gains, mod, r)
    case.count("sequences_moved_along")
    case.nontrivial = True
    case.seen("online", str(step), str(buffers))


FAMILIES = {
    "linear": (500, 6000, linear),
    "switched": (150, 1500, switched),
    "lengths": (180, 2000, lengths),
    "extended": (450, 5000, extended),
    "online": (300, 3000, online),
}
