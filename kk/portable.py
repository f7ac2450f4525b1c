"""Picklable nonlinear models, and the far end of the "another process" checks."""

import functools
import os
import pickle
import struct
import sys

import numpy as np

from kalmankit import ExtendedKalmanFilter, KalmanFilter


class Net:
    """f, h and their Jacobians as bound methods over array parameters."""

    def __init__(self, rng, n, m, p):
        self.A = 0.9 * np.linalg.qr(rng.standard_normal((n, n)))[0]
        self.V, self.W = rng.standard_normal((n, n)), 0.2 * rng.standard_normal((n, n))
        self.B = rng.standard_normal((n, p))
        self.C, self.E = rng.standard_normal((m, n)), 0.6 * rng.standard_normal((m, n))

    def f(self, x, u, /):
        r = self.A @ x + self.W @ np.sin(self.V @ x)
        return r if np.isnan(u).all() else r + self.B @ u

    def h(self, x, /):
        return self.C @ x + np.sin(self.E @ x)

    def jac_a(self, x, u, /):
        return self.A + (self.W * np.cos(self.V @ x)) @ self.V

    def jac_h(self, x, /):
        return self.C + np.cos(self.E @ x)[:, None] * self.E

    def spoil(self):
        for a in vars(self).values():
            a[...] = np.nan


class Ask:
    """A callable object."""

    def __init__(self, net, name):
        self.net, self.name = net, name

    def __call__(self, *args):
        return getattr(self.net, self.name)(*args)


def net_f(net, x, u, /):
    return net.f(x, u)


def net_h(net, x, /):
    return net.h(x)


def net_jac_a(net, x, u, /):
    return net.jac_a(x, u)


def net_jac_h(net, x, /):
    return net.jac_h(x)


def callbacks(rng, net):
    """The four functions in one of the ways users hand them over."""
    kind = ("bound", "object", "partial")[int(rng.integers(3))]
    names = ("f", "h", "jac_a", "jac_h")
    if kind == "bound":
        return kind, {k: getattr(net, k) for k in names}
    if kind == "object":
        return kind, {k: Ask(net, k) for k in names}
    return kind, {k: functools.partial(globals()["net_" + k], net) for k in names}


class Own:
    """What users add in classes of their own."""

    @classmethod
    def named(cls, label, *args, **kw):
        o = cls(*args, **kw)
        o.label, o.notes = label, {"seen": [label], "limits": np.arange(3.0)}
        return o

    def update(self, *args, **kw):
        self.note = "updated"
        return super().update(*args, **kw)

    def same(self, o):
        return (type(o) is type(self) and o.label == self.label and o.notes["seen"] == self.notes["seen"]
                and np.array_equal(o.notes["limits"], self.notes["limits"]))


class OwnKF(Own, KalmanFilter):
    pass


class OwnEKF(Own, ExtendedKalmanFilter):
    pass


class Branded(KalmanFilter):
    """A constructor of its own."""

    def __init__(self, label, model, size):
        kw = dict(state_size=size) if size else {}
        super().__init__(A=model["A"], xk=model["x0"], B=model["B"], Pk=model["P0"], H=model["H"], Q=model["Q"],
                         R=model["R"], **kw)
        self.label, self.notes = label, {"seen": [label], "limits": np.arange(3.0)}

    same = Own.same


# ------------------------------------------------------------- another process

def put(f, obj):
    b = pickle.dumps(obj)
    f.write(struct.pack("<Q", len(b)) + b)
    f.flush()


def get(f):
    head = f.read(8)
    if len(head) < 8:
        raise EOFError("the other process is gone")
    return pickle.loads(f.read(struct.unpack("<Q", head)[0]))


def serve():
    """Answers (payload, calls) with the results, the gains and the object sent back."""
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        try:
            payload, calls = get(sys.stdin.buffer)
        except EOFError:
            return
        try:
            obj = pickle.loads(payload)
            res = []
            for name, args in calls:
                fn = obj if name is None else getattr(obj, name)
                with np.errstate(all="ignore"):
                    res.append([np.array(a) for a in fn(*args)])
            own = getattr(obj, "__self__", obj)
            put(out, (res, own.kalman_gains, pickle.dumps(own), None))
        except Exception as e:  # noqa: BLE001
            put(out, (None, None, None, f"{type(e).__name__}: {e}"))
