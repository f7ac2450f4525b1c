"""Runner: drives workloads against the real code, collects verdicts and evidence.

A check is a module with PROP, FAMILIES (name -> (quick_n, thorough_n, fn)) and
RULE. fn(case) runs one execution of the real code under monitors; it raises
Violation when the oracle refutes the property, Skip when the execution is
outside the decided domain (inconclusive, counted), and returns normally when
the property held on what was observed.
"""

import collections
import contextlib
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import threading
import time
import traceback
import zlib

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KK_REPO", "/repo")


class Violation(Exception):
    """The observed execution refutes the property."""


class Skip(Exception):
    """The execution decides nothing (out of domain, ill-conditioned, ...)."""


class Hang(BaseException):
    """A library call did not return (raised by the alarm, not swallowed by `except Exception`)."""


HANG = 120.0


@contextlib.contextmanager
def alarm(seconds=None):
    """Bound one library call; every legitimate one returns within a second or so."""
    if threading.current_thread() is not threading.main_thread() or signal.getitimer(signal.ITIMER_REAL)[0]:
        yield
        return

    def ring(_signum, _frame):
        raise Hang()

    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, seconds or HANG)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Case:
    """One execution: its random source, descriptor and observation counters."""

    def __init__(self, prop, family, seed, index, tier="quick"):
        self.prop, self.family, self.seed, self.index = prop, family, seed, index
        self.tier = tier
        key = zlib.crc32(f"{prop}/{family}".encode())
        self.rng = np.random.default_rng([seed, key, index])
        self.counts = collections.Counter()
        self.tags = collections.Counter()
        self.desc = {}
        self.margin = 0.0
        self.digest = hashlib.sha256()
        self.nontrivial = False

    def ident(self):
        return dict(prop=self.prop, family=self.family, seed=self.seed,
                    index=self.index, tier=self.tier)

    def seen(self, *arrays):
        """Fold the inputs of this execution into its digest."""
        for a in arrays:
            if a is None:
                self.digest.update(b"none")
            elif isinstance(a, (str, bytes)):
                self.digest.update(a if isinstance(a, bytes) else a.encode())
            else:
                a = np.ascontiguousarray(np.asarray(a))
                self.digest.update(repr((a.shape, a.dtype.str)).encode())
                self.digest.update(a.tobytes())

    def count(self, name, k=1):
        self.counts[name] += k

    def tag(self, *names):
        for n in names:
            self.tags[n] += 1

    def lib(self, what, fn, *a, **k):
        """Call the code under test; an unexpected exception is a violation."""
        self.count("library_calls")
        try:
            with alarm():
                return fn(*a, **k)
        except (Violation, Skip):
            raise
        except Hang:
            raise Violation(f"{what} did not return within {HANG:.0f} s") from None
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(
                f"{what} raised {type(e).__name__}: {str(e)[:200]} "
                f"({os.path.basename(tb.filename)}:{tb.lineno})") from e

    def close(self, what, got, want, tol, scale=None):
        """Oracle comparison; got/want arrays, tol array or scalar of scale."""
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation(f"{what}: shape {got.shape}, expected {want.shape}")
        if got.size == 0:
            return
        if scale is None:
            scale = np.maximum(np.max(np.abs(want)), np.finfo(float).tiny)
        with np.errstate(all="ignore"):
            ratio = np.abs(got.astype(np.longdouble) - want) / (np.asarray(scale) * np.asarray(tol) + UNDERFLOW)
        ratio = np.where(np.isnan(ratio), np.where(got == want, 0.0, np.inf), ratio)
        ratio = np.where(got == want, 0.0, ratio)
        r = float(np.max(ratio)) if ratio.size else 0.0
        self.count("oracle_comparisons")
        self.count("values_compared", int(got.size))
        if not r <= 1.0:
            at = np.unravel_index(int(np.argmax(ratio)), got.shape)
            raise Violation(
                f"{what}: at {tuple(int(i) for i in at)} got {float(got[at])!r} "
                f"expected {float(want[at])!r} ({r:.3g} x tolerance)")
        self.margin = max(self.margin, r)

    def check(self, ok, what):
        self.count("assertions")
        if not ok:
            raise Violation(what)


UNDERFLOW = 1e-305  # below this, numbers have no relative accuracy left
UNUSABLE = (TypeError, ValueError, IndexError, AttributeError, KeyError, ArithmeticError, np.linalg.LinAlgError)


def _work(mod, tier, seed, part, nparts, deadline, only, out):
    """One worker process: every nparts-th case of every family."""
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    res = dict(counts=collections.Counter(), tags=collections.Counter(), margin=0.0,
               evals=0, digests=set(), samples=[], violations=[], skips=collections.Counter(),
               errors=[], fam=collections.Counter(), timeouts=0)
    try:
        for fam, (nq, nt, fn) in mod.FAMILIES.items():
            if only and fam not in only:
                continue
            n = nq if tier == "quick" else nt
            for i in range(part, n, nparts):
                if time.monotonic() > deadline:
                    res["timeouts"] += 1
                    break
                case = Case(mod.PROP, fam, seed, i, tier)
                _one(mod, fn, case, res)
                if len(res["violations"]) >= 3 or len(res["errors"]) >= 3:
                    break
            if len(res["violations"]) >= 3 or len(res["errors"]) >= 3:
                break
    except BaseException:  # noqa: BLE001
        res["errors"].append(traceback.format_exc())
    out.put(res)


def _one(mod, fn, case, res):
    res["evals"] += 1
    try:
        with np.errstate(all="ignore"):
            fn(case)
    except Skip as e:
        res["skips"][str(e)[:60]] += 1
    except Violation as e:
        res["violations"].append(dict(case.ident(), reason=str(e), desc=case.desc))
        res["fam"][case.family] += 1
    except Exception as e:  # noqa: BLE001
        if isinstance(e, UNUSABLE) and case.counts["library_calls"]:
            # never happens with well-formed results: what the library returned cannot even be interpreted
            at = traceback.extract_tb(e.__traceback__)[-1]
            res["violations"].append(dict(case.ident(), desc=case.desc, reason=(
                f"what the library returned is unusable: {type(e).__name__}: {str(e)[:200]} "
                f"({os.path.basename(at.filename)}:{at.lineno})")))
            res["fam"][case.family] += 1
        else:
            res["errors"].append(json.dumps(case.ident()) + "\n" + traceback.format_exc())
    else:
        res["fam"][case.family] += 1
        if case.nontrivial:
            res["digests"].add(case.digest.digest()[:8])
            if len(res["samples"]) < 2:
                res["samples"].append(dict(case.ident(), **case.desc))
    res["margin"] = max(res["margin"], case.margin)
    res["counts"] += case.counts
    res["tags"] += case.tags


def known_findings(prop):
    path = os.path.join(ROOT, "known_findings.txt")
    found = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"known: property={prop} "):
                found.append(line[len(f"known: property={prop} "):])
    return found


def run(mod, tier, seed, only=None, workers=None):
    t0 = time.monotonic()
    workers = workers or getattr(mod, "WORKERS", 8)
    limit = 240 if tier == "quick" else 720
    hard = limit + 170
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    procs = [ctx.Process(target=_work, args=(mod, tier, seed, w, workers, t0 + limit, only, q))
             for w in range(workers)]
    for p in procs:
        p.start()
    results, waiting = [], workers
    while waiting and time.monotonic() < t0 + hard:
        try:
            results.append(q.get(timeout=1))
            waiting -= 1
        except Exception:  # noqa: BLE001
            if not any(p.is_alive() for p in procs) and q.empty():
                break
    for p in procs:
        if p.is_alive() and waiting:
            p.terminate()
        p.join(10)
    tot = dict(counts=collections.Counter(), tags=collections.Counter(), skips=collections.Counter(),
               fam=collections.Counter(), digests=set())
    evals = timeouts = 0
    margin, samples, violations, errors = 0.0, [], [], []
    for r in results:
        for k in ("counts", "tags", "skips", "fam"):
            tot[k] += r[k]
        tot["digests"] |= r["digests"]
        evals += r["evals"]
        timeouts += r["timeouts"]
        margin = max(margin, r["margin"])
        samples += r["samples"]
        violations += r["violations"]
        errors += r["errors"]
    lost = workers - len(results)
    wall = time.monotonic() - t0
    coverage = dict(
        evaluations=evals, distinct_nontrivial=len(tot["digests"]), rule=mod.RULE,
        samples=samples[:4] or [dict(note="no sample")],
        executions_by_family=dict(tot["fam"]), observed=dict(sorted(tot["counts"].items())),
        workload=dict(sorted(tot["tags"].items())), inconclusive=dict(tot["skips"]),
        worst_error_over_tolerance=round(margin, 6))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = dict(property=mod.PROP, tier=tier, seed=seed, level="exploration", coverage=coverage,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2),
              violations=len(violations))
    with open(os.path.join(ROOT, "evidence", mod.PROP + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=_plain)
    for v in violations[:3]:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"{mod.PROP}-{v['family']}-{v['seed']}-{v['index']}.json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=_plain)
        print(f"{mod.PROP} [{v['family']} #{v['index']}]: {v['reason']}")
        print(f"VIOLATION property={mod.PROP} replay={path}", flush=True)
    if violations:
        return 1
    if errors or lost:
        for e in errors[:3]:
            print("HARNESS ERROR", e)
        if lost:
            print(f"INCONCLUSIVE: {lost} worker(s) gave no answer")
        return 2
    min_n = getattr(mod, "MIN_NONTRIVIAL", 20)
    if not only and len(tot["digests"]) < min_n:
        print(f"INCONCLUSIVE: only {len(tot['digests'])} non-trivial executions observed")
        return 2
    ran = {k for k, v in tot["fam"].items() if v}
    missing = [f for f, (nq, nt, _) in mod.FAMILIES.items()
               if f not in ran and (nq if tier == "quick" else nt) and not only]
    if missing and not timeouts:
        print(f"INCONCLUSIVE: families never decided: {missing}")
        return 2
    print(f"{mod.PROP}: held on {evals} executions, {len(tot['digests'])} distinct non-trivial, "
          f"{tot['counts'].get('values_compared', 0)} values compared, "
          f"worst error {margin:.3g} of tolerance, {sum(tot['skips'].values())} inconclusive, "
          f"{wall:.1f} s")
    return 0


def replay(mod, path):
    v = json.load(open(path))
    case = Case(v["prop"], v["family"], v["seed"], v["index"], v["tier"])
    with np.errstate(all="ignore"):
        try:
            mod.FAMILIES[v["family"]][2](case)
        except Violation as e:
            print(json.dumps(case.desc, default=_plain))
            print(f"VIOLATION property={mod.PROP} replay={path}: {e}")
            return 1
        except Skip as e:
            print("inconclusive:", e)
            return 2
    print("held")
    return 0


def _plain(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    return str(o)
