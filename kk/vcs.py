"""Scratch git checkouts with an own model of their history, and the version code run in them."""

import contextlib
import datetime
import importlib.util
import io
import os
import re
import shutil
import subprocess
import sys
import tempfile
import types

from kk.core import REPO, Skip, Violation

KEEP = ("src/kalmankit", "versioneer.py", "setup.py", "pyproject.toml", "setup.cfg", "MANIFEST.in", ".gitattributes",
        ".gitignore", "README.md", "LICENSE", "CHANGELOG.md", ".flake8")
GIT = shutil.which("git") or "git"
FIELDS = ("version", "full-revisionid", "dirty", "error", "date")


def clean_env(home, extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith("GIT_") and k != "PYTHONPATH"}
    env.update(HOME=home, GIT_CONFIG_NOSYSTEM="1", GIT_CONFIG_GLOBAL=os.devnull, GIT_CEILING_DIRECTORIES=home,
               GIT_TERMINAL_PROMPT="0", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", GIT_OPTIONAL_LOCKS="1")
    env.update(extra or {})
    return env


def copy_tree(dst):
    """The working tree's package and build files (no tests), as a project root."""
    os.makedirs(dst, exist_ok=True)
    for name in KEEP:
        src = os.path.join(REPO, name)
        if os.path.isdir(src):
            shutil.copytree(src, os.path.join(dst, name), ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
        elif os.path.exists(src):
            os.makedirs(os.path.dirname(os.path.join(dst, name)), exist_ok=True)
            shutil.copy(src, os.path.join(dst, name))


@contextlib.contextmanager
def scratch():
    base = os.path.realpath(tempfile.mkdtemp(prefix="kkver-"))
    try:
        yield base
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    """Silence the stderr of child processes too."""
    sys.stderr.flush()
    save, null = os.dup(2), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        os.dup2(save, 2)
        os.close(save)
        os.close(null)


@contextlib.contextmanager
def environ(env, cwd):
    before, here = dict(os.environ), os.getcwd()
    os.environ.clear()
    os.environ.update(env)
    os.chdir(cwd)
    try:
        yield
    finally:
        os.environ.clear()
        os.environ.update(before)
        os.chdir(here)


def runtime_versions(case, root, env, cwd, pkg="src/kalmankit"):
    """What the package under root reports about itself (its own version module, loaded from there)."""
    folder = os.path.join(root, pkg)
    parent = types.ModuleType("kk_scratch_pkg")
    parent.__path__ = [folder]

    def run():
        sys.modules["kk_scratch_pkg"] = parent
        spec = importlib.util.spec_from_file_location("kk_scratch_pkg._version", os.path.join(folder, "_version.py"))
        m = importlib.util.module_from_spec(spec)
        sys.modules[spec.name] = m
        spec.loader.exec_module(m)
        return m.get_versions()
    try:
        with environ(env, cwd), quiet():
            out = case.lib("runtime version code", run)
    finally:
        for k in [k for k in sys.modules if k.startswith("kk_scratch_pkg")]:
            del sys.modules[k]
    case.count("runtime_versions_observed")
    return out


def build_versions(case, root, env):
    """What the build-time version code reports in root."""
    def run():
        spec = importlib.util.spec_from_file_location("versioneer", os.path.join(root, "versioneer.py"))
        m = importlib.util.module_from_spec(spec)
        sys.modules["versioneer"] = m
        spec.loader.exec_module(m)
        v = m.get_versions()
        if m.get_version() != v["version"]:
            raise Violation("versioneer.get_version() differs from get_versions()")
        return v
    saved = sys.modules.pop("versioneer", None)
    argv = sys.argv
    sys.argv = [os.path.join(root, "setup.py")]
    try:
        with environ(env, root), quiet():
            out = case.lib("build-time version code", run)
    finally:
        sys.argv = argv
        sys.modules.pop("versioneer", None)
        if saved is not None:
            sys.modules["versioneer"] = saved
    case.count("build_versions_observed")
    return out


def same(case, a, b, where):
    for k in FIELDS:
        case.check(a.get(k) == b.get(k), f"{where}: {k} is {a.get(k)!r} at run time but {b.get(k)!r} at build time")


RELEASES = ["v0.1", "v1.0", "v1.0.1", "v1.10", "v2.0rc1", "v2.0", "v2.0.post1", "v1.0-rc2", "v3.0+local", "v3.1+cuda.11",
            "v0.9.dev3", "v10.0", "v1!2.0", "v4-5-gabcdef0", "v1.2-dirty", "v5.0-dirty-2", "v7"]
OTHERS = ["release-1.0", "version2", "vx1", "V9.9", "9.9", "xv8.0", "stable", "v-1", "vrc1", "rel/v8.1", "v", "1.0-v2",
          "x-v7.7", "docs-2020", "kalmankit-9.9"]
BRANCHES = ["feature", "dev", "fix-1", "release/next", "v-next", "topic_2", "master2", "hot(fix", "a-1-gabc"]


class Repo:
    """A checkout plus the model of what was done to it."""

    def __init__(self, case, home, root, init=True):
        self.case, self.home, self.root = case, home, root
        self.env = clean_env(home)
        self.rng = case.rng
        self.clock = 1_600_000_000
        self.parents, self.branches, self.tags, self.annotated = {}, {}, {}, set()
        self.head = self.branch = None
        self.dirty = False
        self.log = []
        self.releases = RELEASES
        if init:
            copy_tree(root)
            for i in range(3):
                with open(os.path.join(root, f"data{i}.txt"), "w") as f:
                    f.write(f"data {i}\n")
            how = ["--object-format=sha256"] if self.rng.random() < .15 else []
            if self.rng.random() < .1:
                how += ["--separate-git-dir", os.path.join(home, f"git-dir-{len(os.listdir(home))}")]
            self.case.tag(*(h.split("=")[-1].lstrip("-") for h in how if h.startswith("--")))
            self.git("init", "-q", *how, "-b", self.pick("main", "master", "trunk"))
            self.branch = self.git("symbolic-ref", "--short", "HEAD")
            for k, v in (("user.email", "a@b.c"), ("user.name", "A, B (C)"), ("gc.auto", "0"),
                         ("core.fsync", "none"), ("commit.gpgsign", "false"), ("advice.detachedHead", "false")):
                self.git("config", k, v)

    def pick(self, *o):
        return o[int(self.rng.integers(len(o)))]

    def git(self, *args, ok=True, cwd=None, env=None):
        e = dict(env or self.env)
        self.clock += int(self.rng.integers(1, 5000))
        e["GIT_COMMITTER_DATE"] = f"{self.clock} {self.pick(*'+-')}0{int(self.rng.integers(0, 9))}30"
        e["GIT_AUTHOR_DATE"] = f"{self.clock - 100000} +0000"
        r = subprocess.run([GIT, *args], cwd=cwd or self.root, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           stdin=subprocess.DEVNULL)
        if ok and r.returncode:
            raise RuntimeError(f"git {args}: {r.stderr.decode(errors='replace')}")
        return r.stdout.decode(errors="replace").strip()

    # -- operations, each mirrored in the model -----------------------------------------
    def moved(self, *parents):
        self.head = self.git("rev-parse", "--verify", "HEAD")
        self.parents[self.head] = [p for p in parents if p]
        if self.branch:
            self.branches[self.branch] = self.head
        self.dirty = False

    def commit(self):
        if self.head is None:
            self.git("add", "-A", "-f", ".")
        else:
            self.restore()
            if self.rng.random() < .5:
                self.write(f"data{int(self.rng.integers(3))}.txt", f"{self.clock}\n", "a")
                self.git("add", "-u")
        self.git("commit", "-q", "--allow-empty", "-m", self.pick("a change", "v9.9", "fix: -dirty", "tag: v8.0"))
        self.moved(self.head)
        self.log.append("commit")

    def write(self, name, text, mode="w"):
        with open(os.path.join(self.root, name), mode) as f:
            f.write(text)

    def restore(self):
        if self.dirty:
            self.git("reset", "-q", "--hard")
            self.dirty = False
            self.log.append("restore")

    def tag(self, release=.65):
        pool = [t for t in (self.releases if self.rng.random() < release else OTHERS) if t not in self.tags]
        if not pool:
            return
        name = pool[int(self.rng.integers(len(pool)))]
        at = self.head if self.rng.random() < .55 else self.pick(*sorted(self.parents))
        if self.rng.random() < .5:
            self.git("tag", "-a", "-m", "release", name, at)
            self.annotated.add(name)
        else:
            self.git("tag", name, at)
        self.tags[name] = at
        self.log.append(f"tag {name}" + ("" if at == self.head else " elsewhere"))

    def retag(self):
        """Move an existing tag to another commit."""
        if self.tags:
            name = self.pick(*sorted(self.tags))
            at = self.head if self.rng.random() < .6 else self.pick(*sorted(self.parents))
            self.git("tag", "-f", *(["-a", "-m", "moved"] if name in self.annotated else []), name, at)
            self.tags[name] = at
            self.log.append(f"move {name}")

    def amend(self):
        """Replace the last commit by one with the same parents."""
        self.restore()
        old = self.head
        self.git("commit", "-q", "--amend", "--allow-empty", "-m", f"amended {self.clock}")
        self.moved(*self.parents[old])
        self.log.append("amend")

    def untag(self):
        if self.tags:
            name = self.pick(*sorted(self.tags))
            self.git("tag", "-d", name)
            del self.tags[name]
            self.annotated.discard(name)
            self.log.append("untag")

    def new_branch(self):
        pool = [b for b in BRANCHES if b not in self.branches]
        if pool:
            self.restore()
            name = self.pick(*pool)
            at = self.pick(*sorted(self.parents))
            self.git("checkout", "-q", "-b", name, at)
            self.branch, self.head = name, at
            self.branches[name] = at
            self.log.append("branch")

    def switch(self):
        self.restore()
        name = self.pick(*sorted(self.branches))
        self.git("checkout", "-q", name, "--")
        self.branch, self.head = name, self.branches[name]
        self.log.append("switch")

    def detach(self):
        self.restore()
        at = self.pick(*sorted(self.parents))
        self.git("checkout", "-q", "--detach", at)
        self.branch, self.head = None, at
        self.log.append("detach")

    def orphan(self):
        pool = [b for b in BRANCHES if b not in self.branches]
        if pool:
            self.restore()
            name = self.pick(*pool)
            self.git("checkout", "-q", "--orphan", name)
            self.git("commit", "-q", "--allow-empty", "-m", "orphan")
            self.branch = name
            self.moved()
            self.log.append("orphan")

    def merge(self):
        others = [c for c in self.parents if c not in self.ancestors(self.head)
                  and self.head not in self.ancestors(c)]
        if others:
            self.restore()
            k = min(len(others), self.pick(1, 1, 2))
            others = [others[i] for i in self.rng.permutation(len(others))[:k]]
            if k == 2 and (others[0] in self.ancestors(others[1]) or others[1] in self.ancestors(others[0])):
                others = others[:1]
            old = self.head
            tree = self.git("rev-parse", "HEAD^{tree}")
            new = self.git("commit-tree", tree, "-p", old, *[a for o in others for a in ("-p", o)], "-m", "merge")
            self.git("reset", "-q", "--hard", new)
            self.moved(old, *others)
            self.log.append(f"merge{len(others)}")

    def rewind(self):
        """Drop the last commit of the current branch (it may stay tagged)."""
        if self.parents[self.head]:
            self.restore()
            self.git("reset", "-q", "--hard", self.parents[self.head][0])
            self.head = self.parents[self.head][0]
            if self.branch:
                self.branches[self.branch] = self.head
            self.log.append("rewind")

    def pack(self):
        self.git("pack-refs", "--all")
        if self.rng.random() < .4:
            self.git("repack", "-q", "-a", "-d")
        self.log.append("pack")

    def soil(self):
        self.restore()
        f = f"data{int(self.rng.integers(3))}.txt"
        p = os.path.join(self.root, f)
        kind = self.pick("modify", "same size", "stage", "add", "delete", "rm", "chmod", "rename", "version file",
                         "link", "build file", "unmerged", "emptied", "staged, then restored")
        if kind == "modify":
            self.write(f, "changed\n", "a")
        elif kind == "same size":
            s = open(p).read()
            self.write(f, "#" + s[1:])
        elif kind == "stage":
            self.write(f, "staged\n", "a")
            self.git("add", f)
        elif kind == "add":
            self.write("new.txt", "new\n")
            self.git("add", "new.txt")
        elif kind == "delete":
            os.unlink(p)
        elif kind == "rm":
            self.git("rm", "-q", f)
        elif kind == "chmod":
            os.chmod(p, 0o755)
        elif kind == "rename":
            self.git("mv", f, "moved.txt")
        elif kind == "version file":
            self.write("src/kalmankit/_version.py", "\n# edited\n", "a")
        elif kind == "link":
            os.unlink(p)
            os.symlink("data-elsewhere", p)
        elif kind == "unmerged":  # a conflict in progress
            ids = []
            for t in "abc":
                with open(os.path.join(self.home, "side"), "w") as g:
                    g.write(f"side {t}\n")
                ids.append(self.git("hash-object", "-w", os.path.join(self.home, "side")))
            lines = f"0 {'0' * len(ids[0])}\t{f}\n" + "".join(f"100644 {b} {i + 1}\t{f}\n" for i, b in enumerate(ids))
            subprocess.run([GIT, "update-index", "--index-info"], cwd=self.root, env=self.env, check=True,
                           input=lines.encode(), stdout=subprocess.DEVNULL)
        elif kind == "emptied":
            self.write(f, "")
        elif kind == "staged, then restored":  # the index differs from the commit, the file does not
            s = open(p).read()
            self.write(f, "staged\n", "a")
            self.git("add", f)
            self.write(f, s)
        elif kind == "build file":
            self.write("pyproject.toml", "\n# edited\n", "a")
        self.dirty = True
        self.log.append(f"dirty: {kind}")
        self.case.tag(f"dirty: {kind}")

    def litter(self):
        """Changes that are no modification of a tracked file."""
        kind = self.pick("untracked", "ignored", "touch", "revert", "untracked dir", "stash")
        f = f"data{int(self.rng.integers(3))}.txt"
        p = os.path.join(self.root, f)
        if kind == "untracked":
            self.write(self.pick("untracked.txt", "notes-dirty"), "x")
        elif kind == "ignored":
            os.makedirs(os.path.join(self.root, "__pycache__"), exist_ok=True)
            self.write("__pycache__/x.pyc", "x")
        elif kind == "touch" and os.path.isfile(p) and not self.dirty:
            os.utime(p, (1, 1))
        elif kind == "revert" and not self.dirty:
            s = open(p).read()
            self.write(f, "other")
            self.write(f, s)
        elif kind == "untracked dir":
            os.makedirs(os.path.join(self.root, "extra", "v1.0"), exist_ok=True)
            self.write("extra/v1.0/x", "x")
        elif kind == "stash" and self.dirty:
            self.git("stash", "-q", ok=False)
            if self.git("stash", "list"):
                self.git("stash", "drop", "-q")
                self.dirty = False
            else:  # a conflict in progress cannot be stashed
                self.restore()
        self.log.append(f"litter: {kind}")
        self.case.tag(f"not dirty: {kind}")

    def step(self):
        w = dict(commit=30, tag=16, untag=3, new_branch=8, switch=6, detach=7, orphan=2, merge=8, rewind=4, pack=3,
                 soil=12, litter=6, retag=4, amend=4)
        names = sorted(w)
        p = [w[k] / sum(w.values()) for k in names]
        name = names[int(self.rng.choice(len(names), p=p))]
        getattr(self, name)()
        self.case.count("git_operations")
        return name

    # -- model ---------------------------------------------------------------------------
    def ancestors(self, c):
        seen, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += self.parents[x]
        return seen

    def nearest(self):
        """(release tags at the smallest number of commits since, that number) or (None, count)."""
        anc = self.ancestors(self.head)
        best, names = None, []
        for t, c in self.tags.items():
            if re.match(r"v[0-9]", t) and c in anc:
                d = len(anc - self.ancestors(c))
                if best is None or d < best:
                    best, names = d, [t]
                elif d == best:
                    names.append(t)
        return (names, best) if names else (None, len(anc))

    def expect_date(self, v, commit, state):
        """The date alongside is that of the commit."""
        raw = self.git("cat-file", "commit", commit).splitlines()
        secs, zone = next(ln for ln in raw if ln.startswith("committer ")).split()[-2:]
        off = int(zone[0] + "1") * (int(zone[1:3]) * 60 + int(zone[3:5]))
        when = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(secs), minutes=off)
        self.case.check(v.get("date") == when.strftime("%Y-%m-%dT%H:%M:%S") + zone,
                        f"{state}: date {v.get('date')!r}, the commit's is {when.isoformat()}{zone}")
        self.case.count("commit_dates_compared")

    def expect(self, v, where):
        """The reported versions v must describe this state."""
        case = self.case
        tags, d = self.nearest()
        for k in ("version", "full-revisionid", "dirty"):
            case.check(k in v, f"{where}: no {k} reported")
        ver = v["version"]
        state = f"{where} (tags {tags}, {d} commits, dirty {self.dirty})"
        m = re.search(r"g([0-9a-f]+)((?:\.dirty)?)$", ver)
        short = m.group(1) if m else None
        if short is not None and not (len(short) >= 4 and self.head.startswith(short)):
            short = None
        ok = []
        if tags is None:
            if short:
                ok = [f"0+untagged.{d}.g{short}" + (".dirty" if self.dirty else "")]
        elif d == 0 and not self.dirty:
            ok = [t[1:] for t in tags]
        elif short:
            ok = [t[1:] + ("." if "+" in t[1:] else "+") + f"{d}.g{short}" + (".dirty" if self.dirty else "")
                  for t in tags]
        case.check(ver in ok, f"{state}: reported {ver!r}"
                   + (f", expected {ok}" if ok else f", commit {self.head[:12]}"))
        case.check(v["full-revisionid"] == self.head, f"{state}: commit {v['full-revisionid']}, is {self.head}")
        case.check(v["dirty"] is self.dirty, f"{state}: dirty reported {v['dirty']!r}")
        self.expect_date(v, self.head, state)
        case.check(v.get("error") is None, f"{state}: error {v.get('error')!r}")
        case.tag("untagged" if tags is None else "exact" if d == 0 and not self.dirty else "past a tag",
                 "dirty" if self.dirty else "clean", "detached" if self.branch is None else "on a branch")
        if tags and len(tags) > 1:
            case.tag("ties")
        if tags and any("+" in t for t in tags):
            case.tag("local version tag")
        case.count("states_described")
        case.seen(ver.replace(self.head[:len(short)], "H") if short else ver, "/".join(self.log[-6:]))

    def start(self):
        """First commit, usually a first release too."""
        self.commit()
        if self.rng.random() < .65:
            self.tag(release=1)

    def history(self, steps):
        self.start()
        for _ in range(steps):
            self.step()


def require_git():
    try:
        subprocess.run([GIT, "--version"], stdout=subprocess.DEVNULL, check=True)
    except OSError:
        raise Skip("no git in this environment") from None
