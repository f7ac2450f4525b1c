"""C20: the reported version identifies the source state."""

import os
import shutil
import subprocess
import sys
import tarfile
from urllib.parse import quote

import numpy as np
from packaging.version import InvalidVersion, Version

from kk import gen
from kk.core import Violation
from kk.vcs import (GIT, OTHERS, RELEASES, Repo, build_versions, clean_env, copy_tree, require_git, runtime_versions,
                    same, scratch)

PROP = "C20"
RULE = ("random operation sequences on scratch git checkouts (commits, annotated and lightweight tags on any commit, "
        "branches, merges, orphans, detached heads, rewinds, repacks, 11 ways of being dirty, 6 of not being) mirrored "
        "in an own model of the history; archives of any commit, directory names, broken or absent git; after each "
        "sequence the runtime and the build-time code are run there under hostile environments; non-trivial = a version "
        "was compared with the model; distinct by operation tail and version shape")
ASSUMPTIONS = ["held on the histories produced, not proved for all",
               "one tag of several at the same smallest distance may be reported",
               "git 2.43 in this sandbox; run as the owner of the checkout"]
MIN_NONTRIVIAL = 40


def hostile(case, home):
    """Surroundings that must not matter: environment and working directory."""
    rng = case.rng
    env = clean_env(home)
    kind = gen.pick(rng, "plain", "plain", "bogus GIT_DIR", "other GIT_DIR", "abbrev", "color", "locale", "index env", "trace",
                    "signatures", "dates", "locks", "describe config")
    if kind == "bogus GIT_DIR":
        env["GIT_DIR"] = "/nonexistent/git-dir"
    elif kind == "other GIT_DIR":
        other = os.path.join(home, "decoy")
        if not os.path.isdir(other):
            os.makedirs(other)
            e = clean_env(home, dict(GIT_AUTHOR_NAME="x", GIT_AUTHOR_EMAIL="x", GIT_COMMITTER_NAME="x",
                                     GIT_COMMITTER_EMAIL="x"))
            for a in (["init", "-q"], ["commit", "-q", "--allow-empty", "-m", "x"], ["tag", "v66.6"]):
                subprocess.run([GIT, *a], cwd=other, env=e, check=True, stdout=subprocess.DEVNULL)
        env["GIT_DIR"] = os.path.join(other, ".git")
    elif kind in ("abbrev", "color"):
        k, v = ("core.abbrev", gen.pick(rng, "4", "12", "40")) if kind == "abbrev" else ("color.ui", "always")
        env.update(GIT_CONFIG_COUNT="1", GIT_CONFIG_KEY_0=k, GIT_CONFIG_VALUE_0=v)
    elif kind == "locale":
        env.update(LC_ALL="C", LANG="de_DE.UTF-8", LANGUAGE="de")
    elif kind == "trace":
        env.update(GIT_TRACE="1", GIT_TRACE_SETUP="1")
    elif kind in ("signatures", "dates", "describe config"):
        k, v = {"signatures": ("log.showSignature", "true"), "dates": ("log.date", "relative"),
                "describe config": ("core.quotePath", "false")}[kind]
        env.update(GIT_CONFIG_COUNT="2", GIT_CONFIG_KEY_0=k, GIT_CONFIG_VALUE_0=v, GIT_CONFIG_KEY_1="tag.sort",
                   GIT_CONFIG_VALUE_1="-refname", TZ="Asia/Kathmandu")
    elif kind == "locks":
        env.update(GIT_OPTIONAL_LOCKS="0", GIT_DISCOVERY_ACROSS_FILESYSTEM="1")
    elif kind == "index env":
        env.update(GIT_PAGER="false", GIT_EDITOR="false", PAGER="false")
    case.tag(f"environment: {kind}")
    return env


def both(case, root, env, where):
    home = env["HOME"]
    a = runtime_versions(case, root, env, gen.pick(case.rng, root, "/", home, os.path.join(root, "src")))
    b = build_versions(case, root, env)
    same(case, a, b, where)
    v = a["version"]
    case.check(isinstance(v, str) and v, f"{where}: version {v!r}")
    return a


def place(case, home, leaf=None):
    """A project root some levels below home."""
    rng = case.rng
    mid = [gen.pick(rng, "src", "x", "build", "git-stuff", "kalmankit", "kalmanki-2.0") for _ in range(3)]
    return os.path.join(home, *mid, leaf or gen.pick(rng, "proj", "kalmankit", "kalmankit-77.0", "My Project", "v5.5", "ünï cødé", "[a]*?",
                                                   "-n", "it's \"q\"", "$HOME"))


def histories(case):
    require_git()
    rng = case.rng
    with scratch() as home:
        r = Repo(case, home, place(case, home))
        r.start()
        for burst in range(int(rng.integers(2, 5))):
            for _ in range(int(rng.integers(1, 8))):
                r.step()
            v = both(case, r.root, hostile(case, home), "checkout")
            r.expect(v, "checkout")
            check_pep440(case, r, v)
        case.desc.update(ops=r.log[-12:], version=v["version"], commits=len(r.parents), tags=len(r.tags))
    case.nontrivial = True


def check_pep440(case, r, v):
    tags, _ = r.nearest()
    try:
        for t in tags or []:
            Version(t[1:])
    except InvalidVersion:
        return
    try:
        Version(v["version"])
    except InvalidVersion:
        raise Violation(f"version {v['version']!r} is no PEP 440 version although the tag is") from None
    case.count("pep440_versions_parsed")


def long_history(case):
    """Hundreds of commits and wide merges since the tag."""
    require_git()
    rng = case.rng
    with scratch() as home:
        r = Repo(case, home, place(case, home))
        r.commit()
        if rng.random() < .8:
            r.tag()
            if not any(t in RELEASES for t in r.tags):
                r.git("tag", "v0.5")
                r.tags["v0.5"] = r.head
        n = int(gen.pick(rng, 9, 10, 11, 99, 100, 101, 250, 1000))
        blocks, prev = [], r.head
        for i in range(n):
            blocks.append(f"commit refs/heads/{r.branch}\nmark :{i + 1}\ncommitter x <x> {r.clock + i} +0000\n"
                          f"data 1\nx\n" + (f"from {prev}\n" if i == 0 else ""))
        marks = os.path.join(home, "marks")
        subprocess.run([GIT, "fast-import", "--quiet", f"--export-marks={marks}"], cwd=r.root, env=r.env, check=True,
                       input="\n".join(blocks).encode(), stdout=subprocess.DEVNULL)
        r.clock += n
        ids = dict((int(a[1:]), b) for a, b in (ln.split() for ln in open(marks)))
        for i in range(1, n + 1):
            r.parents[ids[i]] = [prev]
            prev = ids[i]
        r.git("reset", "-q", "--hard")
        r.head = r.branches[r.branch] = prev
        for _ in range(int(rng.integers(0, 5))):
            r.step()
        v = both(case, r.root, hostile(case, home), f"checkout {n} commits deep")
        r.expect(v, "long history")
        case.desc.update(commits=n, version=v["version"])
        case.tag(f"{n} commits")
    case.nontrivial = True


def parallel(case):
    """Several lines of development with tags on each, grown in any interleaving, then merged."""
    require_git()
    rng = case.rng
    with scratch() as home:
        r = Repo(case, home, place(case, home))
        r.commit()
        base = r.head
        if rng.random() < .4:
            r.git("tag", "v0.1")
            r.tags["v0.1"] = r.head
        lines = int(rng.integers(2, 5))
        turns = [i for i in range(lines) for _ in range(int(rng.integers(1, 9)))]
        if rng.random() < .7:  # bursts: one line is much younger than another
            turns = [turns[i] for i in np.argsort(np.array(turns) * rng.choice([0, 1, 3]) + rng.uniform(0, 3, len(turns)),
                                                  kind="stable")]
        else:
            turns = [turns[i] for i in rng.permutation(len(turns))]
        tip, blocks, par = {}, [], {}
        r.clock += 10
        for k, i in enumerate(turns):
            r.clock += int(rng.integers(1, 5000))
            prev = f":{tip[i] + 1}" if i in tip else base
            par[k] = tip.get(i)
            blocks.append(f"commit refs/heads/line{i}\nmark :{k + 1}\ncommitter x <x> {r.clock} +0000\ndata 1\nx\n"
                          f"from {prev}\n")
            tip[i] = k
        marks = os.path.join(home, "marks")
        subprocess.run([GIT, "fast-import", "--quiet", f"--export-marks={marks}"], cwd=r.root, env=r.env, check=True,
                       input="\n".join(blocks).encode(), stdout=subprocess.DEVNULL)
        ids = {int(a[1:]) - 1: b for a, b in (ln.split() for ln in open(marks))}
        for k in range(len(turns)):
            r.parents[ids[k]] = [base if par[k] is None else ids[par[k]]]
        for i, k in tip.items():
            r.branches[f"line{i}"] = ids[k]
        for t in rng.permutation([t for t in RELEASES if t not in r.tags])[:int(rng.integers(2, 8))]:
            at = ids[int(rng.integers(len(turns)))]
            t = str(t)
            r.git("tag", *(["-a", "-m", "x"] if rng.random() < .5 else []), t, at)
            r.tags[t] = at
        for i in rng.permutation(sorted(tip)):
            others = r.branches[f"line{i}"]
            if others in r.ancestors(r.head) or (rng.random() < .1):
                continue
            tree = r.git("rev-parse", "HEAD^{tree}")
            ps = [r.head, others]
            if rng.random() < .4:
                ps = ps[::-1]
            new = r.git("commit-tree", tree, "-p", ps[0], "-p", ps[1], "-m", "merge")
            r.git("reset", "-q", "--hard", new)
            r.moved(*ps)
        for _ in range(int(rng.integers(0, 3))):
            r.step()
        v = both(case, r.root, hostile(case, home), "merged lines")
        r.expect(v, "merged lines")
        anc = r.ancestors(r.head)
        case.tag(f"{sum(c in anc for t, c in r.tags.items() if t in RELEASES)} reachable release tags")
        case.desc.update(lines=lines, turns="".join(map(str, turns)), version=v["version"])
    case.nontrivial = True


def relocate(r, root):
    """Move the checkout (git itself does not follow a checkout whose repository is elsewhere and names it)."""
    os.rename(r.root, root)
    r.root = root


def cloned(r, kind, root):
    """Another checkout of r.head at root; the model keeps what that one can see."""
    rng = r.rng
    if r.branch != "to-clone":
        r.git("branch", "-f", "to-clone", r.head)
    url = "file://" + quote(r.root)
    if kind == "clone":
        r.git("clone", "-q", "-b", "to-clone", "--no-local", r.root, root)
        r.git("fetch", "-q", "--tags", "origin", cwd=root)
    elif kind == "shallow":
        r.git("clone", "-q", "-b", "to-clone", "--depth", str(int(rng.integers(1, 6))), url, root)
    elif kind == "one branch":
        r.git("clone", "-q", "-b", "to-clone", "--single-branch", *(["--no-tags"] if rng.random() < .4 else []), url, root)
    elif kind == "shared":
        r.git("clone", "-q", "-b", "to-clone", "--shared", r.root, root)
        r.git("fetch", "-q", "--tags", "origin", cwd=root)
    else:
        outer = os.path.dirname(root)
        fmt = r.git("rev-parse", "--show-object-format")
        r.git("init", "-q", "--object-format=" + fmt, outer)
        ident = ("-c", "user.name=x", "-c", "user.email=x")
        r.git(*ident, "commit", "-q", "--allow-empty", "-m", "outer", cwd=outer)
        r.git("tag", "v66.6", cwd=outer)
        r.git("-c", "protocol.file.allow=always", "submodule", "--quiet", "add", "--force", "-b", "to-clone", url,
              os.path.basename(root), cwd=outer)
        r.git("fetch", "-q", "--tags", "origin", cwd=root)
        if rng.random() < .5:
            r.git(*ident, "commit", "-q", "-m", "add", cwd=outer)
    cut = os.path.join(root, ".git", "shallow")
    if os.path.exists(cut):
        for c in open(cut).read().split():
            r.parents[c] = []
        r.case.tag("history really cut")
    have = r.git("tag", "-l", cwd=root).split()
    r.tags = {t: c for t, c in r.tags.items() if t in have}


def views(case):
    """Clones, linked work trees and relocated checkouts of the same history."""
    require_git()
    rng = case.rng
    with scratch() as home:
        r = Repo(case, home, place(case, home, "origin"))
        r.history(int(rng.integers(3, 12)))
        kind = gen.pick(rng, "worktree", "clone", "moved", "symlink", "read-only", "shallow", "shallow", "one branch",
                        "shared", "submodule", "sparse")
        root = place(case, home, "other place")
        os.makedirs(os.path.dirname(root), exist_ok=True)
        r.restore()
        if kind == "worktree":
            r.git("worktree", "add", "-q", "--detach", root, r.head)
        elif kind in ("clone", "shallow", "one branch", "shared", "submodule"):
            cloned(r, kind, root)
        elif kind == "moved":
            relocate(r, root)
        elif kind == "symlink":
            os.symlink(r.root, root)
        elif kind == "sparse":
            relocate(r, root)
            r.git("sparse-checkout", "set", "--no-cone", "/*", "!/data2.txt", cwd=root)
        else:
            relocate(r, root)
            for d, _, files in os.walk(os.path.join(root, "src")):
                for f in files:
                    os.chmod(os.path.join(d, f), 0o444)
        r.root = root
        if rng.random() < .4 and kind != "symlink":
            with open(os.path.join(root, "data1.txt"), "a") as f:
                f.write("x")
            r.dirty = True
        v = both(case, root, hostile(case, home), kind)
        r.expect(v, kind)
        case.tag(f"view: {kind}")
        case.desc.update(view=kind, ops=r.log[-12:], version=v["version"])
    case.nontrivial = True


def archives(case):
    require_git()
    rng = case.rng
    with scratch() as home:
        r = Repo(case, home, place(case, home))
        r.history(int(rng.integers(2, 14)))
        if rng.random() < .6:
            r.tag()
        what = gen.pick(rng, "HEAD", "HEAD", r.head, *sorted(r.parents))
        at_tags = [t for t in r.tags if rng.random() < .5]
        if at_tags:
            what = at_tags[0]
        commit = r.tags.get(what, r.head if what == "HEAD" else what)
        tar = os.path.join(home, "a.tar")
        r.git("archive", "-o", tar, "refs/tags/" + what if what in r.tags else what)
        inside = rng.random() < .4
        root = place(case, home, gen.pick(rng, "kalmankit-55.5", "proj", "kalmankit"))
        if inside:  # unpacked in a checkout of something else
            root = os.path.join(r.root, "vendor", "proj")
        os.makedirs(root, exist_ok=True)
        with tarfile.open(tar) as t:
            t.extractall(root, filter="data")
        env = hostile(case, home)
        nogit = rng.random() < .4
        if nogit:
            env["PATH"] = os.path.join(home, "no-such-bin")
        v = both(case, root, env, "archive")
        tags = [t[1:] for t, c in r.tags.items() if c == commit and t[0] == "v" and t[1:2].isdigit()]
        state = f"archive of {what} with release tags {tags}" + (" inside another checkout" if inside else "")
        case.check(v["version"] in (tags or ["0+unknown"]), f"{state}: reported {v['version']!r}")
        case.check(v["full-revisionid"] == commit, f"{state}: commit {v['full-revisionid']}, is {commit}")
        case.check(v["dirty"] is False, f"{state}: dirty {v['dirty']!r}")
        if tags:
            r.expect_date(v, commit, state)
        case.check(bool(tags) == (v.get("error") is None), f"{state}: error {v.get('error')!r}")
        case.tag(f"archive with {len(tags)} release tags", "in a checkout" if inside else "plain",
                 "no git program" if nogit else "git present")
        case.seen(v["version"], "/".join(r.log[-5:]), str(inside))
        case.count("archives_identified")
        case.desc.update(what=what[:12], tags=tags, version=v["version"])
    case.nontrivial = True


NAMES = ["proj", "kalmankit", "kalmankit-", "Kalmankit-3.0", "kalmankit_3.0", "my-kalmankit-3.0", "kalmankit2-1.0", "build",
         "v1.0", "kalmankit 1.0", "alpha"]


def directories(case):
    """No git, unexpanded archive, no recorded version: the directory name decides."""
    rng = case.rng
    names = [gen.pick(rng, *[n for n in NAMES if n != "kalmankit-"]) for _ in range(5)]
    versions = ["1.0", "0.3.1", "2.0rc1", "3.0+local.1", "1.0-dirty", "10", "0+unknown", "kalmankit-2", "1.0-kalmankit-9"]
    for i in range(5):
        if rng.random() < .3:
            names[i] = "kalmankit-" + gen.pick(rng, *versions)
    with scratch() as home:
        # the mangled scratch name never starts with the prefix; names are root-to-leaf
        root = os.path.join(home, *names)
        copy_tree(root)
        env = hostile(case, home)
        kind = gen.pick(rng, "no repository", "no repository", "no git program", "failing git", "git not executable",
                        "killed git", "empty repository", "broken .git", "damaged history", "missing head")
        fallback(case, kind, root, home, env)
        v = both(case, root, env, f"{kind}, {'/'.join(names)}")
        want = "0+unknown"
        for n in names[::-1][:3]:
            if n.startswith("kalmankit-"):
                want = n[len("kalmankit-"):]
                break
        case.check(v["version"] == want, f"{kind} in {'/'.join(names)}: reported {v['version']!r}, expected {want!r}")
        case.check(v["full-revisionid"] is None and not v["dirty"],
                   f"{kind}: reported commit {v['full-revisionid']!r}, dirty {v['dirty']!r}")
        case.check(v.get("date") is None, f"{kind}: date {v.get('date')!r} without a commit")
        case.check((want == "0+unknown") or v.get("error") is None, f"{kind}: error {v.get('error')!r}")
        case.tag(kind, "named" if want != "0+unknown" else "unknown")
        case.seen("/".join(names), kind)
        case.count("directory_names_decided")
        case.desc.update(names=names, kind=kind, version=v["version"])
    case.nontrivial = True


def fallback(case, kind, root, home, env):
    """Make git unable to say anything about root."""
    bin_ = os.path.join(home, "bin")
    if kind in ("failing git", "git not executable", "killed git"):
        os.makedirs(bin_)
        g = os.path.join(bin_, "git")
        with open(g, "w") as f:
            f.write({"failing git": "#!/bin/sh\necho oops\nexit 128\n", "git not executable": "nothing",
                     "killed git": "#!/bin/sh\nkill -9 $$\n"}[kind])
        os.chmod(g, 0o755 if kind != "git not executable" else 0o644)
        env["PATH"] = bin_
    elif kind == "no git program":
        env["PATH"] = bin_
        if case.rng.random() < .5:
            os.makedirs(bin_)
    if kind in ("empty repository", "damaged history", "missing head"):
        require_git()

        def git(*a):
            e = clean_env(home, dict(GIT_AUTHOR_NAME="x", GIT_AUTHOR_EMAIL="x", GIT_COMMITTER_NAME="x",
                                     GIT_COMMITTER_EMAIL="x"))
            return subprocess.run([GIT, *a], cwd=root, env=e, check=True, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL).stdout.decode().strip()
        git("init", "-q")
        if kind != "empty repository":
            git("add", "-A")
            git("commit", "-q", "-m", "1")
            victim = git("rev-parse", "HEAD")
            if kind == "damaged history":
                for i in range(int(case.rng.integers(1, 4))):
                    git("commit", "-q", "--allow-empty", "-m", f"{i + 2}")
            os.unlink(os.path.join(root, ".git", "objects", victim[:2], victim[2:]))
    elif kind == "broken .git":
        with open(os.path.join(root, ".git"), "w") as f:
            f.write(gen.pick(case.rng, "", "gitdir: /nonexistent\n", "garbage\n"))


def imported(case):
    """The whole package imported in a fresh interpreter reports the same version."""
    require_git()
    rng = case.rng
    with scratch() as home:
        r = Repo(case, home, place(case, home, "proj"))
        r.history(int(rng.integers(1, 10)))
        env = hostile(case, home)
        src = os.path.join(r.root, "src")
        how = gen.pick(rng, "plain", "plain", "-O", "-OO", "-I", "-E", "-X dev", "-W error", "no site", "closed stdin",
                       "threads", "traced")
        opts = how.split() if how[0] == "-" else []
        code = "import kalmankit as k, json; print(k.__file__); print(k.__version__)"
        if how in ("-I", "-E"):
            code = f"import sys; sys.path.insert(0, {src!r}); " + code
        elif how == "threads":
            code = ("import threading, sys; from concurrent.futures import ThreadPoolExecutor as E\n"
                    "with E(4) as e: list(e.map(lambda i: __import__('kalmankit'), range(8)))\n") + code
        elif how == "traced":
            code = "import sys; sys.settrace(lambda *a: None)\n" + code
        env["PYTHONPATH"] = src
        if how == "no site":
            env["PYTHONNOUSERSITE"] = "1"
        case.tag(f"imported: {how}")
        p = subprocess.run([sys.executable, *opts, "-c", code], cwd=gen.pick(rng, "/", home, r.root), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, close_fds=True,
                           stdin=None if how != "closed stdin" else subprocess.DEVNULL)
        case.check(p.returncode == 0, f"import kalmankit ({how}) failed: {p.stderr.decode()[-300:]}")
        path, ver = p.stdout.decode().splitlines()[-2:]
        if not path.startswith(r.root):
            raise RuntimeError(f"wrong package {path}")
        v = runtime_versions(case, r.root, clean_env(home), "/")
        r.expect(v, "imported")
        if "core.abbrev" not in env.values():
            case.check(ver == v["version"], f"kalmankit.__version__ {ver!r}, get_versions() {v['version']!r}")
        case.count("fresh_interpreters")
        case.desc.update(ops=r.log, version=ver)
    case.nontrivial = True


FAMILIES = {
    "histories": (110, 3000, histories),
    "long_history": (16, 200, long_history),
    "parallel": (70, 2000, parallel),
    "views": (64, 1000, views),
    "archives": (80, 2000, archives),
    "directories": (250, 5000, directories),
    "imported": (24, 300, imported),
}
WORKERS = 8
