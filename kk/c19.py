"""C19: the helpers classify and mark missing arrays exactly."""

import itertools

import numpy as np

from kalmankit.utils import check_none_and_broadcast, is_nan_all

from kk import gen

PROP = "C19"
RULE = ("arrays of every real dtype (bool, all integer widths, half to extended precision), rank 0-6 incl. zero-length "
        "axes, every memory layout; contents all NaN of any bit pattern, all NaN but one, exhaustive {NaN, number} masks "
        "up to 10 elements, one number among up to three million NaN, cancelling infinities, extremes; every call observed for identity, aliasing, bytes of inputs; "
        "non-trivial = at least one element; distinct by input digest")
ASSUMPTIONS = ["held on the executions produced, not proved for all inputs",
               "exhaustive only for NaN masks of up to 10 elements"]

FLOATS = ["f2", "f4", "f8", "g"]
INTS = ["?", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"]
NAN_BITS = {"f2": ("u2", [0x7e00, 0xfe00, 0x7c01, 0xffff, 0x7d55]),
            "f4": ("u4", [0x7fc00000, 0xffc00000, 0x7f800001, 0xffffffff]),
            "f8": ("u8", [0x7ff8000000000000, 0xfff8000000000000, 0x7ff0000000000001, 0xffffffffffffffff])}


def shape(rng, empty=True):
    nd = int(gen.pick(rng, 0, 1, 1, 2, 2, 3, 4, 5, 6))
    s = [int(gen.pick(rng, 1, 2, 3, 4, 7)) for _ in range(nd)]
    if nd == 1 and rng.random() < .3:
        s = [int(gen.pick(rng, 100, 1023, 4096, 20011))]
    if empty and nd and rng.random() < .15:
        s[int(rng.integers(nd))] = 0
    return tuple(s)


def nans(rng, s, dt):
    a = np.full(s, np.nan, dtype=dt)
    if dt in NAN_BITS and rng.random() < .6:
        u, pats = NAN_BITS[dt]
        a = rng.choice(np.array(pats, dtype=u), size=s)
        a = np.asarray(a, dtype=u).view(dt)
    return a


def layout(rng, a):
    """The same values in another memory layout."""
    kind = gen.pick(rng, "C", "F", "strided", "reversed", "moved", "readonly", "unaligned", "swapped", "C")
    if a.ndim == 0 and kind in ("strided", "reversed", "moved"):
        kind = "readonly"
    if kind == "F":
        a = np.asfortranarray(a)
    elif kind == "strided":
        big = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        big[..., ::2] = a
        a = big[..., ::2]
    elif kind == "reversed":
        a = a[::-1].copy()[::-1]
    elif kind == "moved":
        a = np.moveaxis(np.ascontiguousarray(np.moveaxis(a, 0, -1)), -1, 0)
    elif kind == "readonly":
        a = a.copy()
        a.flags.writeable = False
    elif kind == "unaligned" and a.dtype.itemsize > 1 and a.dtype.itemsize < 16:
        buf = np.zeros(a.nbytes + 1, np.uint8)
        v = buf[1:].view(a.dtype).reshape(a.shape)
        v[...] = a
        a = v
    elif kind == "swapped":
        a = a.astype(a.dtype.newbyteorder())
    return kind, a


def numbers(rng, s, dt):
    """Finite or infinite numbers of the dtype, extremes included."""
    d = np.dtype(dt)
    if d.kind == "b":
        return np.asarray(rng.random(s) < .5)
    if d.kind in "iu":
        i = np.iinfo(d)
        return np.asarray(rng.choice(np.array([i.min, i.max, 0, 1, i.max - 1], dtype=d), size=s), dtype=d)
    f = np.finfo(d)
    vals = np.array([0.0, -0.0, 1, -1, f.max, f.min, f.tiny, f.smallest_subnormal, np.inf, -np.inf], dtype=d)
    return np.asarray(rng.choice(vals, size=s), dtype=d)


def ask(case, what, a, want):
    before = a.tobytes(), a.dtype, a.shape, a.strides
    got = case.lib("is_nan_all", is_nan_all, a)
    case.check(isinstance(got, (bool, np.bool_)) or np.ndim(got) == 0, f"is_nan_all returned a {type(got).__name__}")
    case.check(bool(got) is want, f"is_nan_all says {bool(got)} for {what}")
    case.check((a.tobytes(), a.dtype, a.shape, a.strides) == before, "is_nan_all modified its argument")
    case.count("said_true" if got else "said_false")


def classify(case):
    rng = case.rng
    dt = gen.pick(rng, *FLOATS, *FLOATS, *INTS)
    s = shape(rng)
    size = int(np.prod(s))
    kind = gen.pick(rng, "all", "all but one", "none", "infinities", "mixed") if dt in FLOATS else "none"
    if kind == "all":
        a = nans(rng, s, dt)
    elif kind == "all but one":
        a = np.array(nans(rng, s, dt))
        if size:
            at = int(gen.pick(rng, 0, size - 1, int(rng.integers(size))))
            a.flat[at] = numbers(rng, (), dt)
    elif kind == "infinities":
        a = np.asarray(rng.choice(np.array([np.inf, -np.inf], dtype=dt), size=s), dtype=dt)
    elif kind == "mixed":
        a = np.asarray(np.where(rng.random(s) < .5, nans(rng, s, dt), numbers(rng, s, dt)), dtype=dt)
    else:
        a = numbers(rng, s, dt)
    # independent oracle: NaN is the only value differing from itself
    want = all(bool(v != v) for v in np.asarray(a).ravel().tolist())
    lay, a = layout(rng, a)
    case.desc.update(dtype=dt, shape=list(s), kind=kind, layout=lay, expected=want)
    case.tag(f"dtype {dt}", f"rank {len(s)}", lay, kind, "empty" if not size else "non-empty")
    case.seen(a, lay)
    ask(case, f"{kind} {dt} {s} ({lay})", a, want)
    if rng.random() < .3:
        reps = np.broadcast_to(a, (3,) + a.shape)
        ask(case, f"broadcast {kind} {dt} {s}", reps, want)
    case.nontrivial = size > 0


MASK_SHAPES = [(k,) for k in range(1, 9)] + [(2, 2), (3, 2), (1, 4), (2, 2, 2), (2, 4), (5, 2), (9,), (10,)]


def masks(case):
    """Every NaN mask of a small shape."""
    s = MASK_SHAPES[case.index % len(MASK_SHAPES)]
    k = int(np.prod(s))
    dt = FLOATS[(case.index // len(MASK_SHAPES)) % 4]
    fill = case.rng.choice(np.array([0.0, 1.0, np.inf, -np.inf, -0.0]))
    for bits in itertools.product((False, True), repeat=k):
        a = np.where(np.array(bits).reshape(s), np.nan, fill).astype(dt)
        ask(case, f"mask {bits} of {dt}", a, all(bits))
    case.desc.update(shape=list(s), dtype=dt, masks=2 ** k, fill=float(fill))
    case.seen(repr((s, dt, float(fill), case.index)))
    case.nontrivial = True


def reference(rng):
    dt = gen.pick(rng, *FLOATS, *INTS)
    s = shape(rng)
    r = nans(rng, s, dt) if dt in FLOATS and rng.random() < .3 else numbers(rng, s, dt)
    return (dt, s) + layout(rng, r)



def state(a):
    return (a.tobytes(), a.dtype, a.shape, a.strides, a.flags.writeable)


def missing(case):
    rng = case.rng
    dt, s, lay, ref = reference(rng)
    if rng.random() < .2:
        ref = np.broadcast_to(ref, (int(rng.integers(1, 5)),) + ref.shape)
        lay = "broadcast"
    before = state(ref)
    outs = []
    for rep in range(3):
        out = case.lib("check_none_and_broadcast", check_none_and_broadcast, None, ref)
        case.check(isinstance(out, np.ndarray), f"returned a {type(out).__name__}")
        case.check(out.shape == ref.shape, f"marker of shape {out.shape} for a reference of shape {ref.shape}")
        case.check(out.dtype.kind == "f", f"marker dtype {out.dtype} for a {dt} reference")
        case.check(bool(np.all(out != out)), f"marker holds {out.ravel()[:4].tolist()} for a {dt} {lay} reference")
        case.check(out is not ref and not np.shares_memory(out, ref), "marker is the reference itself")
        case.check(all(not np.shares_memory(out, o) for o in outs), "two calls share one marker")
        case.check(bool(case.lib("is_nan_all", is_nan_all, out)), "marker not recognised by the all-NaN test")
        case.check(state(ref) == before, "the reference was modified")
        if out.flags.writeable and rep < 2:
            out[...] = 1.0
            case.check(state(ref) == before, "writing the marker changed the reference")
        outs.append(out)
    case.desc.update(dtype=dt, shape=list(ref.shape), layout=lay)
    case.tag(f"reference {dt}", lay, f"rank {ref.ndim}")
    case.seen(ref, lay)
    case.nontrivial = ref.size > 0


def given(case):
    rng = case.rng
    dt, s, lay, a = reference(rng)
    kind = gen.pick(rng, "other shape", "same shape", "alias", "all NaN", "empty", "view", "subclass")
    _, _, _, ref = reference(rng)
    if kind == "same shape":
        ref = np.zeros(a.shape)
    elif kind == "alias":
        ref = a
    elif kind == "all NaN":
        a = nans(rng, s, gen.pick(rng, *FLOATS))
        ref = np.zeros(s)
    elif kind == "empty":
        a = np.zeros((0,) + s)
    elif kind == "view":
        ref = a[None]
    elif kind == "subclass":
        class Sub(np.ndarray):
            pass
        a = np.array(a).view(Sub)
    before, bref = state(a), state(ref)
    out = case.lib("check_none_and_broadcast", check_none_and_broadcast, a, ref)
    case.check(out is a, f"a given array ({kind}, {dt} {s}) was not returned itself")
    case.check(state(a) == before and state(ref) == bref, "an argument was modified")
    out = case.lib("check_none_and_broadcast", lambda: check_none_and_broadcast(arr=a, broad_to=ref))
    case.check(out is a, "keyword call: not the given array")
    case.desc.update(kind=kind, dtype=dt, shape=list(a.shape), reference=list(ref.shape))
    case.tag(f"given {kind}", lay)
    case.seen(a, ref, kind)
    case.nontrivial = a.size > 0


def large(case):
    """One number anywhere among very many NaN."""
    rng = case.rng
    dt = gen.pick(rng, *FLOATS)
    size = int(gen.pick(rng, 65536, 65537, 100000, 262145, 1000003))
    s = gen.pick(rng, (size,), (size, 1), (1, size), (2, size), (size, 3))
    buf = np.full(s, np.nan, dt)
    how = gen.pick(rng, "C", "reversed", "transposed")
    a = {"C": buf, "reversed": buf[::-1], "transposed": buf.T}[how]
    ask_large(case, a, True, f"{size} NaN")
    for at in {0, 1, buf.size - 1, *(int(v) for v in rng.integers(buf.size, size=4))}:
        buf.flat[at] = numbers(rng, (), dt)
        ask_large(case, a, False, f"one number at {at} among {buf.size} {dt} ({how})")
        buf.flat[at] = np.nan
    case.desc.update(dtype=dt, shape=list(s), layout=how)
    case.tag(f"large {dt}")
    case.seen(repr((dt, s, how, case.index)))
    case.nontrivial = True


def ask_large(case, a, want, what):
    got = bool(case.lib("is_nan_all", is_nan_all, a))
    case.check(got is want, f"is_nan_all says {got} for {what}")
    case.count("said_true" if got else "said_false")


FAMILIES = {
    "large": (24, 400, large),
    "classify": (3000, 60000, classify),
    "masks": (64, 320, masks),
    "missing": (1500, 30000, missing),
    "given": (800, 15000, given),
}
