"""C01: linear filtering against three independent oracles."""

import numpy as np

from kk import gen, ref, examples
from kk.common import ASSUME, agree, cross_check, probe, run_kf

PROP = "C01"
RULE = ("random linear-Gaussian models (dimensions 1-12, lengths 1-3000, nine time patterns, unit scales "
        "2^-30..2^30, singular/zero/huge initial and process covariances, noise-free sensors, all control modes, memory forms); "
        "non-trivial = at least one decided step with a non-zero observation matrix; distinct by input digest")
ASSUMPTIONS = ASSUME


def joint(case):
    """Against conditioning of the joint Gaussian of the whole trajectory."""
    mod = gen.linear(case)
    if mod.T * mod.m > 150:
        mod = mod.cut(0, max(1, 150 // mod.m))
    f = gen.form(case, mod)
    r = ref.recursive(mod)
    bd = ref.bands(mod, r)
    ref.require(bd)
    bt = ref.batch(mod)
    cross_check(case, bt, r, bd)
    x, P, _ = run_kf(case, mod, f)
    agree(case, "filtered", x, P, bt.x, bt.P, bd)
    probe(case, "filtered", x, P, bt.x, bt.P, bd)
    case.nontrivial = bool(np.any(mod.H))


def recursion(case):
    mod = gen.linear(case)
    f = gen.form(case, mod)
    r = ref.recursive(mod)
    bd = ref.bands(mod, r)
    ref.require(bd)
    x, P, _ = run_kf(case, mod, f)
    agree(case, "filtered", x, P, r.x, r.P, bd)
    case.nontrivial = bool(np.any(mod.H))


def rational(case):
    """Against exact rational conditioning, small integer models."""
    mod = gen.grid(case, T=int(case.rng.integers(1, 5)), top=3, step=gen.pick(case.rng, 1.0, 0.5))
    e = ref.exact(mod)
    r = ref.recursive(mod)
    bd = ref.bands(mod, r)
    ref.require(bd)
    cross_check(case, e, r, bd)
    f = gen.form(case, mod, typed=case.rng.random() < 0.7)
    x, P, _ = run_kf(case, mod, f)
    agree(case, "filtered (exact)", x, P, e.x, e.P, bd)
    case.count("exact_oracle_runs")
    case.nontrivial = bool(np.any(mod.H))


def grids(case):
    """Integer-valued models in integer, boolean and mixed dtypes."""
    mod = gen.grid(case, step=gen.pick(case.rng, 1.0, 1.0, 0.25))
    if case.rng.random() < 0.2:
        mod.Z = (mod.Z > 0) * 1.0
    r = ref.recursive(mod)
    bd = ref.bands(mod, r)
    ref.require(bd)
    x, P, _ = run_kf(case, mod, gen.form(case, mod, typed=True))
    agree(case, "filtered (typed)", x, P, r.x, r.P, bd)
    case.nontrivial = bool(np.any(mod.H))


def long(case):
    T = int(gen.pick(case.rng, 60, 100, 130, 257, 300, 400))
    if case.index % 25 == 0:
        T = 3000
    mod = gen.linear(case, T=T, big=T < 500, stable=True)
    r = ref.recursive(mod)
    bd = ref.bands(mod, r)
    ref.require(bd)
    x, P, _ = run_kf(case, mod, gen.form(case, mod))
    agree(case, "filtered (long)", x, P, r.x, r.P, bd)
    case.nontrivial = bool(np.any(mod.H))


def deep(case):
    """Thousands of steps in one call."""
    mod = gen.linear(case, T=gen.deep_length(case), n=int(gen.pick(case.rng, 1, 2)),
                     m=int(gen.pick(case.rng, 1, 2)), p=1, stable=True)
    r = ref.recursive(mod)
    bd = ref.bands(mod, r)
    ref.require(bd)
    x, P, _ = run_kf(case, mod, gen.form(case, mod))
    agree(case, "filtered (deep)", x, P, r.x, r.P, bd)
    case.nontrivial = bool(np.any(mod.H))


def wide(case):
    """High dimensions."""
    n = int(case.rng.integers(8, 26))
    m = int(case.rng.integers(1, 31))
    mod = gen.linear(case, T=int(case.rng.integers(1, 6)), n=n, m=m, p=int(case.rng.integers(1, 12)))
    r = ref.recursive(mod)
    bd = ref.bands(mod, r)
    ref.require(bd)
    x, P, _ = run_kf(case, mod, gen.form(case, mod))
    agree(case, "filtered (wide)", x, P, r.x, r.P, bd)
    case.nontrivial = bool(np.any(mod.H))


def special(case):
    """Structured corners: time-invariant identity models, zero noise, repeated data."""
    rng = case.rng
    n = int(gen.pick(rng, 1, 2, 3, 5))
    T = int(gen.pick(rng, 1, 2, 3, 8, 25))
    mod = gen.linear(case, T=T, n=n, m=int(gen.pick(rng, 1, n)), scaled=False,
                     patterns=gen.pick(rng, "const", "switch", "spike", "last"))
    w = gen.pick(rng, "walk", "noQ", "known", "tinyR", "hugeR", "tinyQ", "diffuse", "same z", "exact sensors", "exact sensors")
    case.tag("special:" + w)
    case.desc["special"] = w
    if w == "walk":
        mod.A = np.tile(np.eye(n), (T, 1, 1))
        mod.H = np.tile(np.eye(n)[:mod.m], (T, 1, 1))
    elif w == "noQ":
        mod.Q = mod.Q * 0
    elif w == "known":
        mod.P0 = mod.P0 * 0
    elif w == "tinyR":
        mod.R = mod.R * 1e-8
    elif w == "hugeR":
        mod.R = mod.R * 1e8
    elif w == "tinyQ":
        mod.Q = mod.Q * 1e-12
    elif w == "diffuse":
        mod.P0 = np.eye(n) * 1e7
    elif w == "exact sensors":
        mod.Q = mod.Q + .1 * np.mean(np.abs(mod.Q)) * np.eye(n) + 1e-3 * np.eye(n)
        mod = gen.exact_sensors(case, mod)
    else:
        mod.Z = np.tile(mod.Z[0], (T, 1))
    r = ref.recursive(mod)
    bd = ref.bands(mod, r)
    ref.require(bd)
    x, P, _ = run_kf(case, mod, gen.form(case, mod))
    agree(case, f"filtered ({w})", x, P, r.x, r.P, bd)
    case.nontrivial = bool(np.any(mod.H))


def shipped(case):
    examples.kf_case(case, "filter")


FAMILIES = {
    "joint": (900, 12000, joint),
    "recursion": (900, 20000, recursion),
    "rational": (160, 2000, rational),
    "grids": (500, 8000, grids),
    "special": (500, 8000, special),
    "wide": (80, 1200, wide),
    "long": (50, 800, long),
    "deep": (8, 64, deep),
    "shipped": (5, 24, shipped),
}
