"""Run in a fresh interpreter (never imported by the harness): imports and uses kalmankit under an audit hook.

usage: probe.py SRC REPORT SEED MODE      MODE: import | use | both
Everything the watched code did is written to REPORT as JSON.
"""

import atexit
import builtins
import decimal
import gc
import json
import locale
import logging
import os
import random
import resource
import signal
import subprocess
import sys
import threading
import time
import warnings

import numpy as np

WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
LOUD = ("os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.link", "os.symlink", "os.truncate", "os.utime", "os.chmod", "os.chown",
        "os.chflags", "os.lockf", "os.setxattr", "os.removexattr", "os.memfd_create", "os.mkfifo", "os.mknod",
        "os.system", "os.exec", "os.fork", "os.posix_spawn", "os.spawn", "os.kill", "os.killpg", "pty.",
        "subprocess.", "socket.", "shutil.", "tempfile.", "urllib.", "http.", "ftplib.", "smtplib.", "poplib.", "imaplib.", "nntplib.",
        "telnetlib.", "webbrowser.", "sqlite3.", "syslog.", "fcntl.", "signal.", "resource.", "_thread.start", "sys.addaudithook",
        "sys.settrace", "sys.setprofile", "sys.set_asyncgen", "builtins.input", "mmap.", "ensurepip", "pdb.", "ctypes.")
LOG, STATE = [], dict(on=False, seen=0)


def hook(event, args):
    if not STATE["on"]:
        return
    STATE["seen"] += 1
    if event == "open":
        path, mode, flags = (list(args) + [None] * 3)[:3]
        writes = isinstance(flags, int) and flags & WRITE or isinstance(mode, str) and set(mode) & set("wax+")
        if not writes or isinstance(path, int):
            return
        LOG.append([event, os.fsdecode(path) if isinstance(path, (str, bytes)) else repr(path), mode, flags])
    elif event.startswith(LOUD):
        LOG.append([event] + [repr(a)[:300] for a in (args[:3] if event == "subprocess.Popen" else args)])


def handlers():
    out = {}
    for s in signal.valid_signals():
        try:
            out[str(int(s))] = repr(signal.getsignal(s))
        except ValueError:
            pass
    return out


def children():
    try:
        pid, status = os.waitpid(-1, os.WNOHANG)
        return f"a child process is left ({pid}, {status})"
    except ChildProcessError:
        return "none"


def callables():
    """Identity of what the modules loaded before offer (patched functions show here)."""
    out = {}
    for name in ("builtins", "os", "sys", "subprocess", "json", "re", "functools", "warnings", "logging", "random", "time",
                 "threading", "numpy", "numpy.linalg", "numpy.random", "decimal", "copy", "pickle", "importlib", "types"):
        m = sys.modules.get(name)
        for k, v in list(vars(m).items()) if m else ():
            if callable(v) and k not in ("_",):
                out[f"{name}.{k}"] = id(v)
                if isinstance(v, type) and v is not type:
                    out[f"methods of {name}.{k}"] = hash(tuple(sorted(
                        (a, id(b)) for a, b in list(vars(v).items()) if callable(b) or isinstance(b, (property, classmethod)))))
    return out


def registries():
    """Tables of the standard library that modules may enter themselves into."""
    sock = sys.modules.get("socket")
    copier = sys.modules.get("copyreg")
    return (sock and sock.getdefaulttimeout(), copier and sorted(repr(t) for t in copier.dispatch_table if t.__module__.partition(".")[0] in ("builtins", "numpy")))


def state():
    try:
        cwd = os.getcwd()
    except OSError:
        cwd = "gone"
    rs = np.random.get_state()
    mask = os.umask(0)
    os.umask(mask)
    return {
        "working directory": cwd, "environment": dict(os.environ), "module search path": list(sys.path),
        "command line": list(sys.argv), "meta path": [repr(f) for f in sys.meta_path], "path hooks": len(sys.path_hooks),
        "warning filters": repr(warnings.filters), "warning display": id(warnings.showwarning),
        "numpy error handling": np.geterr(), "numpy error callback": repr(np.geterrcall()), "print options": repr(np.get_printoptions()),
        "numpy global generator": repr((rs[0], rs[1].tobytes(), rs[2:])), "random module": hash(random.getstate()),
        "signal handlers": handlers(), "timers": signal.getitimer(signal.ITIMER_REAL), "threads": [t.name for t in threading.enumerate()],
        "root logger": repr((logging.root.level, logging.root.handlers, logging.root.disabled, logging.root.manager.disable)),
        "logger class": repr(logging.getLoggerClass()), "locale": locale.setlocale(locale.LC_ALL), "decimal context": repr(decimal.getcontext()),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)), "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(), "tracing": repr((sys.gettrace(), sys.getprofile(), threading.gettrace())),
        "hooks": [id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(threading.excepthook)],
        "standard streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr)], "builtins": sorted(vars(builtins)), "exit handlers": atexit._ncallbacks(),
        "file mode mask": mask, "open files": sorted(os.listdir("/proc/self/fd")), "child processes": children(),
        "resource limits": [resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_CORE, resource.RLIMIT_AS, resource.RLIMIT_STACK)],
        "priority": os.getpriority(os.PRIO_PROCESS, 0), "processors": sorted(os.sched_getaffinity(0)), "time zone": (time.tzname, os.environ.get("TZ")),
        "int digit limit": sys.get_int_max_str_digits(), "bytecode flag": sys.dont_write_bytecode, "floating point repr": repr(np.float64(.1)),
        "socket timeout and copy registry": registries(),
    }


def odd(kalmankit, rng, d, Z, U):
    """Values and shapes nobody wants."""
    names = list(d) + ["Z", "U", "f", "h"]
    k, how = names[int(rng.integers(len(names)))], int(rng.integers(9))
    d = dict(d, Z=Z, U=U)
    if k in d:
        a = np.array(d[k])
        at = tuple(int(rng.integers(v)) for v in a.shape)
        if how < 5:
            a[at] = (np.nan, np.inf, 1e300, -1e9, 0.0)[how]
        d[k] = (a, a, a, a, a, a * np.nan, a * 0, a[..., None, :], np.round(a * 3).astype(int))[how]

    def f(x, u):
        if k == "f":
            raise (ValueError, KeyboardInterrupt, ZeroDivisionError)[how % 3]("user's own")
        return x + np.tanh(x)

    def h(x):
        return d["H"][0] @ x * (np.nan if k == "h" else 1)
    Z, U = d.pop("Z"), d.pop("U")
    try:
        kf = kalmankit.KalmanFilter(**d)
        kf.filter(Z, U)
        kf.smooth(Z, U)
    except Exception:  # noqa: BLE001
        pass
    try:
        kalmankit.ExtendedKalmanFilter(xk=d["xk"], Pk=d["Pk"], Q=d["Q"], R=d["R"], f=f, h=h, jacobian_A=lambda x, u: np.diag(
            2 - np.tanh(x) ** 2), jacobian_H=lambda x: d["H"][0]).smooth(Z, U)
    except (Exception, KeyboardInterrupt):  # noqa: BLE001
        pass


def use(seed):
    """A working day of both filters, failures included."""
    import kalmankit
    rng = np.random.default_rng(seed)
    calls = 0
    for _ in range(4):
        n, m, p, T = (int(v) for v in rng.integers(1, 5, 4))
        T += 3 if rng.random() < .8 else 1100

        def sp(k):
            a = rng.standard_normal((T, k, k))
            return a @ a.transpose(0, 2, 1) + np.eye(k)
        A, H, B = rng.standard_normal((T, n, n)) * .5, rng.standard_normal((T, m, n)), rng.standard_normal((T, n, p))
        Q, R, x0, P0 = sp(n), sp(m), rng.standard_normal(n), np.eye(n)
        Z, U = rng.standard_normal((T, m)), rng.standard_normal((T, p))
        kf = kalmankit.KalmanFilter(A=A, xk=x0, B=B if rng.random() < .6 else None, Pk=P0, H=H, Q=Q, R=R)
        ekf = kalmankit.ExtendedKalmanFilter(
            xk=x0, Pk=P0, Q=Q, R=R, f=lambda x, u: np.tanh(A[0] @ x), h=lambda x: H[0] @ x,
            jacobian_A=lambda x, u: (1 - np.tanh(A[0] @ x) ** 2)[:, None] * A[0], jacobian_H=lambda x: H[0])
        singular = kalmankit.KalmanFilter(A=A, xk=x0, B=None, Pk=P0 * 0, H=H, Q=Q * 0, R=R * 0)
        for o in (kf, ekf):
            for u in (None, U):
                o.filter(Z, u)
                o.smooth(Z, u)
                calls += 2
        kf.predict(A[0], x0, None, None, P0, Q[0])
        kf.update(H[0], x0, P0, Z[0], R[0])
        ekf.predict(x0, U[0], P0, Q[0])
        ekf.update(x0, P0, Z[0], R[0])
        calls += 5
        try:
            singular.filter(Z)
        except np.linalg.LinAlgError:
            pass
        with np.errstate(all="ignore"):
            kf.filter(Z * 1e300)
            for _ in range(6):
                odd(kalmankit, rng, dict(A=A, xk=x0, B=B, Pk=P0, H=H, Q=Q, R=R), Z, U)
        if kalmankit.utils.is_nan_all(kalmankit.utils.check_none_and_broadcast(None, Z)):
            calls += 2
    repr(kf), str(kalmankit.__version__)
    del kf, ekf, singular
    return calls


def habits(rng):
    """The host program has its own settings, which are to survive."""
    picks = [
        gc.disable,
        lambda: gc.set_threshold(50, 5, 5),
        lambda: gc.freeze(),
        lambda: np.seterr(over="ignore", under="warn", divide="ignore"),
        lambda: np.set_printoptions(precision=3, suppress=True),
        lambda: np.random.seed(4),
        lambda: random.seed(5),
        lambda: warnings.simplefilter("error", ResourceWarning),
        lambda: warnings.filterwarnings("ignore", message="nothing"),
        lambda: signal.signal(signal.SIGINT, lambda *a: None),
        lambda: signal.signal(signal.SIGCHLD, lambda *a: None),
        lambda: signal.signal(signal.SIGPIPE, signal.SIG_DFL),
        lambda: signal.signal(signal.SIGTERM, signal.SIG_IGN),
        lambda: logging.basicConfig(level=logging.WARNING),
        lambda: logging.disable(logging.INFO),
        lambda: setattr(decimal.getcontext(), "prec", 9),
        lambda: sys.setrecursionlimit(3000),
        lambda: sys.setswitchinterval(.002),
        lambda: os.umask(0o077),
        lambda: os.environ.update(GIT_OPTIONAL_LOCKS="0", KK_HOST="1"),
        lambda: os.environ.update(LC_ALL="C", LANG="C"),
        lambda: locale.setlocale(locale.LC_ALL, "C.UTF-8"),
        lambda: os.environ.update(TZ="Asia/Tokyo"),
        lambda: os.environ.update(GIT_DIR="/nonexistent"),
        lambda: sys.path.append("/nonexistent"),
    ]
    out = []
    for i in rng.permutation(len(picks))[:int(rng.integers(0, 14))]:
        picks[i]()
        out.append(int(i))
    return sorted(out)


def main():
    src, report, seed, mode = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    fd = os.open(report, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    if fd < 3:  # standard streams were closed: stay clear of them
        import fcntl
        fd2 = fcntl.fcntl(fd, fcntl.F_DUPFD, 10)
        os.close(fd)
        fd = fd2
    sys.path.insert(0, src)
    sys.addaudithook(hook)
    out = dict(calls=0, error=None, changed={}, events=[], seen=0, modules=[], version=None)
    if mode == "use":
        import kalmankit  # noqa: F401
        if use(0) == 0:
            raise SystemExit("no calls")
    out["habits"] = habits(np.random.default_rng(seed)) if mode != "use" or seed % 2 else []
    gc.collect()
    before, fn, mods = state(), callables(), set(sys.modules)
    STATE["on"] = True
    try:
        if mode != "use":
            import kalmankit as kk
            out["version"] = str(kk.__version__)
            out["file"] = kk.__file__
        if mode != "import":
            out["calls"] = use(seed)
    except BaseException as e:  # noqa: BLE001
        out["error"] = f"{type(e).__name__}: {e}"
    finally:
        STATE["on"] = False
    gc.collect()
    after, fn2 = state(), callables()
    for k, v in before.items():
        if after[k] != v:
            out["changed"][k] = [repr(v)[:200], repr(after[k])[:200]]
    patched = [k for k, v in fn.items() if k in fn2 and fn2[k] != v]
    if patched:
        out["changed"]["functions of other modules"] = [patched[:5], "replaced"]
    gone = [k for k in fn if k not in fn2]
    if gone:
        out["changed"]["functions of other modules"] = [gone[:5], "removed"]
    ours = ("numpy", "kalmankit")
    out["modules"] = sorted({m.partition(".")[0] for m in set(sys.modules) - mods} - set(sys.stdlib_module_names) - set(ours)
                            - {m for m in sys.modules if "cython" in m})
    out["events"], out["seen"], out["compared"] = LOG[:40], STATE["seen"], len(before) + len(fn)
    os.write(fd, json.dumps(out, default=repr).encode())
    os.close(fd)


main()
