"""C24: importing and using the package leaves the rest of the world alone."""

import ast
import hashlib
import json
import os
import shutil
import stat
import subprocess
import sys
import tarfile

from kk import gen
from kk.c20 import fallback, hostile
from kk.c21 import PACKAGEABLE
from kk.core import ROOT, Skip
from kk.vcs import Repo, clean_env, copy_tree, require_git, scratch

PROP = "C24"
RULE = ("fresh interpreters importing the package from random checkouts, archives, plain directories and built trees "
        "(healthy, absent, failing or killed git; odd working directories, closed streams, other users, read-only "
        "trees) and using both filters; monitors: audit events (file writes, processes, network, threads, imports), "
        "process-wide state before and after, output, every file of the source tree, home and working directory; "
        "non-trivial = a completed interpreter with the hook active; distinct by place, environment and history")
ASSUMPTIONS = ["held on the executions produced, not proved",
               "what is visible to CPython's audit hooks, the compared process state and the file system"]
MIN_NONTRIVIAL = 20
PROBE = os.path.join(ROOT, "kk", "probe.py")
NETWORK = {"fetch", "pull", "push", "ls-remote", "clone", "remote", "gc", "maintenance"}


def tree(*tops):
    """Every file below tops: kind, size, mode and content."""
    out = {}
    for top in tops:
        for d, dirs, files in os.walk(top):
            for name in dirs + files:
                p = os.path.join(d, name)
                if name.startswith("report-") or "__pycache__" in p or p.endswith(os.sep + ".git" + os.sep + "index") or (
                        f"{os.sep}git-dir-" in p and name == "index") or (
                        f"{os.sep}worktrees{os.sep}" in p and name == "index"):
                    continue
                st = os.lstat(p)
                what = (stat.S_IFMT(st.st_mode), stat.S_IMODE(st.st_mode))
                if stat.S_ISREG(st.st_mode):
                    with open(p, "rb") as f:
                        what += (st.st_mtime_ns, hashlib.sha256(f.read()).hexdigest())
                elif stat.S_ISLNK(st.st_mode):
                    what += (os.readlink(p),)
                out[p] = what
    return out


def git_command(event):
    """The git sub-command of a recorded process, or None if it is none of git's."""
    try:
        args = ast.literal_eval(event[2])
    except (ValueError, SyntaxError):
        return None
    if isinstance(args, str) or not args or os.path.basename(str(args[0])) not in ("git", "git.exe", "git.cmd"):
        return None
    rest = [str(a) for a in args[1:]]
    while rest and rest[0].startswith("-"):
        rest = rest[2:] if rest[0] in ("-C", "-c", "--git-dir", "--work-tree") else rest[1:]
    return rest[0] if rest else ""


def watched(case, src, env, cwd, mode, tops, what, opts=(), healthy=True, silent=True, git=True, **popen):
    """One watched interpreter; returns its report."""
    rep = os.path.join(env["HOME"], f"report-{case.counts['interpreters_watched']}.json")
    open(rep, "w").close()
    os.chmod(rep, 0o666)
    os.makedirs(env.setdefault("TMPDIR", os.path.join(env["HOME"], "tmp")), exist_ok=True)
    os.chmod(env["TMPDIR"], 0o777)
    before = tree(*tops)
    case.count("interpreters_watched")
    close = popen.pop("close", ())
    argv = [sys.executable, *opts, PROBE, src, rep, str(int(case.rng.integers(1 << 30))), mode]
    if close:
        argv = ["/bin/sh", "-c", 'exec "$@" ' + " ".join(close), "sh", *argv]
    p = subprocess.run(argv, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                       stdin=subprocess.DEVNULL, **popen)
    err = p.stderr.decode(errors="replace")
    text = open(rep).read()
    if not text:
        if "kalmankit" in err or healthy:
            case.check(False, f"{what}: the interpreter ended without a report (exit {p.returncode}): {err[-300:]}")
        raise Skip("interpreter could not start here")
    os.unlink(rep)
    r = json.loads(text)
    case.check(r["error"] is None, f"{what}: {mode} failed with {r['error']}")
    case.check(p.returncode == 0, f"{what}: interpreter ended with {p.returncode}: {err[-300:]}")
    if "1>&-" not in close:
        case.check(not p.stdout, f"{what}: {mode} printed {p.stdout[:200]!r}")
    if silent and "2>&-" not in close:
        case.check(not err.strip(), f"{what}: {mode} wrote to standard error: {err[:300]!r}")
    for e in r["events"]:
        if e[0] == "subprocess.Popen":
            sub = git_command(e)
            case.check(sub is not None, f"{what}: {mode} started a process: {e[1:]}")
            case.check(git, f"{what}: {mode} ran git although nothing is to be found out: {e[2]}")
            case.check(sub not in NETWORK, f"{what}: {mode} ran git {sub}")
            case.count("git_queries_seen")
            continue
        if e[0] == "os.posix_spawn" and "git" in e[1]:
            continue
        if e[0] == "open" and e[1] == os.devnull:
            continue
        if "__pycache__" in str(e[1:]) and e[0] in ("open", "os.mkdir", "os.rename", "os.remove"):
            case.count("bytecode_cache_events")
            continue
        case.check(False, f"{what}: {mode} caused {e}")
    for k, (a, b) in r["changed"].items():
        case.check(False, f"{what}: {mode} changed the process-wide {k}: {a} -> {b}")
    case.check(not r["modules"], f"{what}: {mode} loaded {r['modules']}")
    after = tree(*tops)
    for f in sorted(set(before) | set(after)):
        case.check(before.get(f) == after.get(f), f"{what}: {mode} " + (
            "created" if f not in before else "removed" if f not in after else "changed") + f" {f}")
    case.count("audit_events_seen", r["seen"])
    case.count("state_items_compared", r["compared"])
    case.count("files_compared", len(after))
    case.count("filter_calls_watched", r["calls"])
    case.tag(f"mode: {mode}", *(f"host setting {i}" for i in r["habits"]))
    case.nontrivial = True
    return r


OPTS = [(), (), (), ("-X", "dev"), ("-O",), ("-OO",), ("-W", "error"), ("-E",), ("-s",), ("-X", "utf8"),
        ("-X", "dev", "-W", "error")]


def surroundings(case, home, env):
    """Working directory, options and streams of the interpreter."""
    rng = case.rng
    opts = gen.pick(rng, *OPTS)
    cwd = gen.pick(rng, home, "/", os.path.join(home, "work"))
    os.makedirs(os.path.join(home, "work"), exist_ok=True)
    kw = {}
    odd = gen.pick(rng, *[""] * 6, "stdin closed", "stdout closed", "stderr closed", "all closed", "no HOME", "no PATH", "bytecode")
    if odd.endswith("closed"):
        kw["close"] = {"stdin": ("0<&-",), "stdout": ("1>&-",), "stderr": ("2>&-",),
                       "all": ("0<&-", "1>&-", "2>&-")}[odd.split()[0]]
    elif odd == "no PATH":
        env["PATH"] = ""
    elif odd == "bytecode":
        env.pop("PYTHONDONTWRITEBYTECODE", None)
    case.tag("options: " + (" ".join(opts) or "none"), "odd: " + (odd or "nothing"))
    return opts, cwd, kw, odd


def checkout(case):
    require_git()
    rng = case.rng
    with scratch() as home:
        os.chmod(home, 0o755)
        r = Repo(case, home, os.path.join(home, gen.pick(rng, "proj", "kalmankit-9.9", "a b")))
        if rng.random() < .35:  # no release yet
            for _ in range(int(rng.integers(2, 12))):
                r.commit()
            case.tag("unreleased")
        else:
            r.history(int(rng.integers(1, 10)))
        env = hostile(case, home) if rng.random() < .4 else clean_env(home)
        plain = "core.abbrev" not in env.values() and not [k for k in env if k.startswith("GIT_")
                                                           and k not in clean_env(home)]
        opts, cwd, kw, odd = surroundings(case, home, env)
        if rng.random() < .2:
            cwd = r.root
        if rng.random() < .2:
            for d, ds, fs in os.walk(os.path.join(r.root, "src"), topdown=False):
                for f in fs:
                    os.chmod(os.path.join(d, f), 0o444)
                os.chmod(d, 0o555)
            case.tag("read-only sources")
        rep = watched(case, os.path.join(r.root, "src"), env, cwd, gen.pick(rng, "import", "both", "use"), [home],
                      "checkout", opts, silent=plain, **kw)
        case.seen(repr(opts), odd, "/".join(r.log[-6:]))
        case.desc.update(opts=opts, odd=odd, version=rep["version"], ops=r.log[-8:])


def outside(case):
    """Archives and plain directories, git absent or useless."""
    rng = case.rng
    with scratch() as home:
        os.chmod(home, 0o755)
        root = os.path.join(home, gen.pick(rng, "proj", "kalmankit-3.1", "x/kalmankit-2.0/src-dist"))
        env = clean_env(home)
        kind = gen.pick(rng, "archive", "no repository", "no git program", "failing git", "git not executable", "killed git",
                        "empty repository", "broken .git", "damaged history", "missing head")
        if kind == "archive":
            require_git()
            r = Repo(case, home, os.path.join(home, "origin"))
            r.history(int(rng.integers(1, 6)))
            tar = os.path.join(home, "a.tar")
            r.git("archive", "-o", tar, "HEAD")
            os.makedirs(root, exist_ok=True)
            with tarfile.open(tar) as t:
                t.extractall(root, filter="data")
        else:
            copy_tree(root)
            fallback(case, kind, root, home, env)
        opts, cwd, kw, odd = surroundings(case, home, env)
        if kind == "no git program":
            env["PATH"] = os.path.join(home, "bin")
        rep = watched(case, os.path.join(root, "src"), env, cwd, gen.pick(rng, "import", "both"), [home], kind, opts,
                      silent=kind in ("archive", "no repository", "no git program"), **kw)
        case.tag("place: " + kind)
        case.seen(kind, repr(opts), odd, root[len(home):])
        case.desc.update(kind=kind, opts=opts, odd=odd, version=rep["version"])


def built(case):
    """A built tree knows its version: no process at all."""
    require_git()
    rng = case.rng
    with scratch() as home:
        os.chmod(home, 0o755)
        r = Repo(case, home, os.path.join(home, "proj"))
        r.releases = PACKAGEABLE
        r.history(int(rng.integers(1, 5)))
        lib = os.path.join(home, "site packages", "lib")
        p = subprocess.run([sys.executable, "setup.py", "-q", "build_py", "-d", lib], cwd=r.root, env=clean_env(home),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        case.check(p.returncode == 0, f"build_py failed: {p.stderr.decode(errors='replace')[-300:]}")
        env = clean_env(home)
        opts, cwd, kw, odd = surroundings(case, home, env)
        if rng.random() < .4:
            shutil.move(lib, os.path.join(r.root, "src", "kalmankit", "vendored"))
            lib = os.path.join(r.root, "src", "kalmankit", "vendored")
            case.tag("inside a checkout")
        for mode in (("import", "both", "use") if case.tier == "thorough" else (gen.pick(rng, "both", "import"),)):
            rep = watched(case, lib, env, cwd, mode, [home], "built tree", opts, git=False, **kw)
        case.seen(repr(opts), odd, "/".join(r.log[-4:]))
        case.desc.update(opts=opts, odd=odd, version=rep["version"])


def stranger(case):
    """Imported by another, unprivileged user who may write nowhere; and from a deleted working directory."""
    rng = case.rng
    with scratch() as home:
        os.chmod(home, 0o755)
        root = os.path.join(home, "proj")
        if rng.random() < .5:
            require_git()
            r = Repo(case, home, root)
            r.history(int(rng.integers(1, 5)))
            case.tag("another user's checkout")
        else:
            copy_tree(root)
        env = clean_env(home)
        opts = gen.pick(rng, *OPTS)
        gone = rng.random() < .4
        kw = {}
        if os.geteuid() == 0 and not gone:
            kw = dict(user=65534, group=65534, extra_groups=[])
        cwd = home
        if gone:
            cwd = os.path.join(home, "gone")
            os.makedirs(cwd)
            real = [sys.executable, *opts]
            case.tag("deleted working directory")
            sh = f'rmdir "{cwd}"; exec "$@"'
            rep = os.path.join(home, "rep.json")
            p = subprocess.run(["/bin/sh", "-c", sh, "sh", *real, PROBE, os.path.join(root, "src"), rep, "1", "both"],
                               cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
            text = open(rep).read() if os.path.exists(rep) else ""
            case.check(p.returncode == 0 and text, f"deleted working directory: exit {p.returncode}: "
                                                   f"{p.stderr.decode(errors='replace')[-300:]}")
            d = json.loads(text)
            case.check(d["error"] is None and not d["changed"] and not p.stdout,
                       f"deleted working directory: {d['error']} {d['changed']} {p.stdout[:200]}")
            bad = [e for e in d["events"] if e[0] != "open" and "__pycache__" not in str(e) and not (e[0] == "subprocess.Popen" and git_command(e) is not None)]
            case.check(not bad, f"deleted working directory: {bad[:3]}")
            case.count("interpreters_watched")
            case.nontrivial = True
        else:
            try:
                watched(case, os.path.join(root, "src"), env, cwd, "both", [root], "another user", opts, healthy=False,
                        silent=False, **kw)
                case.tag("unprivileged user" if kw else "same user")
            except (PermissionError, subprocess.SubprocessError):
                raise Skip("no other user available") from None
        case.seen(repr(opts), str(gone), root)


def busy(case):
    """Long use in one process: nothing at all happens besides computing."""
    rng = case.rng
    with scratch() as home:
        root = os.path.join(home, "proj")
        copy_tree(root)
        env = clean_env(home)
        opts, cwd, kw, odd = surroundings(case, home, env)
        r = watched(case, os.path.join(root, "src"), env, cwd, "use", [home], "use", opts, silent=True, **kw)
        case.check(r["calls"] > 0, "no call was made")
        case.seen(repr(opts), odd, str(rng.integers(1 << 30)))
        case.desc.update(opts=opts, odd=odd)


FAMILIES = {
    "checkout": (64, 800, checkout),
    "outside": (64, 1000, outside),
    "built": (16, 250, built),
    "stranger": (24, 300, stranger),
    "busy": (48, 800, busy),
}
