"""C21: built distributions carry the version of the tree they were built from."""

import email
import os
import shutil
import subprocess
import sys
import tarfile
import zipfile

from packaging.version import Version

from kk import gen
from kk.vcs import (FIELDS, RELEASES, Repo, build_versions, clean_env, copy_tree, require_git, runtime_versions,
                    scratch)

PROP = "C21"
RULE = ("random git states (own model of the history, clean or dirty, tagged or not), archives and named directories, "
        "built by setup.py build / build_py / build_ext / install / install_lib / sdist (tar, zip) / bdist_wheel / bdist_dumb / bdist_egg / PEP 517 wheel and sdist / editable, "
        "repeatedly in one checkout with changes between, and again from the unpacked sdist; results unpacked in hostile "
        "places and asked for their version; tracked files of the checkout compared byte by byte; non-trivial = a built "
        "result was asked; distinct by builder, state and place")
ASSUMPTIONS = ["held on the histories produced, not proved for all",
               "setuptools and git of this sandbox; release tags are PEP 440 versions (others cannot be packaged)"]
MIN_NONTRIVIAL = 20
WORKERS = 8

PACKAGEABLE = [t for t in RELEASES if t not in ("v4-5-gabcdef0", "v1.2-dirty", "v5.0-dirty-2")]
LIBS = ["build", "build_py", "bdist_wheel", "pep517 wheel", "build_py build_ext", "install", "install_lib", "dumb", "egg"]
SOURCES = ["sdist", "sdist zip", "pep517 sdist"]


def run(case, root, env, *args):
    p = subprocess.run([sys.executable, *args], cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       stdin=subprocess.DEVNULL, timeout=120)
    case.count("build_commands_run")
    return p


PEP = ("import sys; from setuptools import build_meta as b; "
       "print(getattr(b, sys.argv[1])(sys.argv[2]))")


def make(case, root, env, kind, out):
    """Run one builder; the folder of built files, unpacked."""
    os.makedirs(out)
    args = {
        "build": ["setup.py", "-q", "build", "-b", os.path.join(out, "b")],
        "build in place": ["setup.py", "-q", "build"],
        "build_py": ["setup.py", "-q", "build_py", "-d", os.path.join(out, "lib")],
        "build_py build_ext": ["setup.py", "-q", "build_py", "-d", os.path.join(out, "lib"), "build_ext", "-b",
                               os.path.join(out, "lib")],
        "install": ["setup.py", "-q", "install", "--root", os.path.join(out, "r"), "--single-version-externally-managed"],
        "install_lib": ["setup.py", "-q", "install_lib", "-d", os.path.join(out, "lib")],
        "dumb": ["setup.py", "-q", "bdist_dumb", "-d", out],
        "egg": ["setup.py", "-q", "bdist_egg", "-d", out],
        "bdist_wheel": ["setup.py", "-q", "bdist_wheel", "-d", out],
        "sdist": ["setup.py", "-q", "sdist", "-d", out],
        "sdist zip": ["setup.py", "-q", "sdist", "--formats=zip", "-d", out],
        "pep517 wheel": ["-c", PEP, "build_wheel", out],
        "pep517 sdist": ["-c", PEP, "build_sdist", out],
        "editable": ["-c", PEP, "build_editable", out],
    }[kind]
    p = run(case, root, env, *args)
    case.check(p.returncode == 0, f"{kind} failed: {p.stderr.decode(errors='replace')[-400:]}")
    case.tag(f"builder: {kind}")
    if kind == "build in place":
        shutil.copytree(os.path.join(root, "build"), os.path.join(out, "b"))
    found = []
    for f in sorted(os.listdir(out)):
        path = os.path.join(out, f)
        if f.endswith((".tar.gz", ".zip", ".whl", ".egg")):
            to = os.path.join(out, "unpacked")
            if f.endswith(".tar.gz"):
                with tarfile.open(path) as t:
                    t.extractall(to, filter="data")
            else:
                with zipfile.ZipFile(path) as z:
                    z.extractall(to)
            found.append((f if kind not in ("dumb", "egg") else None, to))
    if kind == "install":
        found.append((None, out))
    return found


def package(out):
    """Folders holding a kalmankit/_version.py below out."""
    hits = []
    for d, dirs, files in os.walk(out):
        if os.path.basename(d) == "kalmankit" and "_version.py" in files:
            hits.append(d)
    return hits


def modules(folder):
    return {os.path.relpath(os.path.join(d, f), folder): open(os.path.join(d, f), "rb").read()
            for d, _, fs in os.walk(folder) for f in fs if f.endswith(".py")}


def decoy(case, home, where):
    """A foreign checkout with its own release tag."""
    r = Repo(case, home, where)
    r.git("add", "-A")
    r.git("commit", "-q", "-m", "foreign")
    r.git("tag", "v66.6")


def ask(case, home, folder, want, what):
    """Move a built package somewhere else and ask for its version there."""
    rng = case.rng
    place = gen.pick(rng, "plain", "named directory", "foreign checkout", "site-packages")
    top = os.path.join(home, "elsewhere", str(case.counts["built_packages_asked"]))
    if place == "named directory":
        dst = os.path.join(top, "kalmankit-88.8", "src", "kalmankit")
    elif place == "foreign checkout":
        decoy(case, home, os.path.join(top, "foreign"))
        shutil.rmtree(os.path.join(top, "foreign", "src", "kalmankit"))
        dst = os.path.join(top, "foreign", "src", "kalmankit")
    elif place == "site-packages":
        dst = os.path.join(top, "lib", "python3", "site-packages", "kalmankit")
    else:
        dst = os.path.join(top, "a", "kalmankit")
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    shutil.copytree(folder, dst)
    env = clean_env(home)
    if rng.random() < .6:
        env["PATH"] = os.path.join(home, "no-such-bin")
    got = runtime_versions(case, os.path.dirname(dst), env, gen.pick(rng, "/", top, os.path.dirname(dst)), "kalmankit")
    for k in FIELDS:
        case.check(got.get(k) == want.get(k),
                   f"{what}, placed in a {place}: {k} is {got.get(k)!r}, built from {want.get(k)!r}")
    case.tag(f"asked in: {place}")
    case.count("built_packages_asked")
    if rng.random() < .25:
        env["PYTHONPATH"] = os.path.dirname(dst)
        p = run(case, "/", env, "-c", "import kalmankit as k; print(k.__file__); print(k.__version__)")
        case.check(p.returncode == 0, f"{what}: import failed: {p.stderr.decode()[-300:]}")
        path, ver = p.stdout.decode().splitlines()[-2:]
        if not path.startswith(dst):
            raise RuntimeError(f"wrong package {path}")
        case.check(ver == want["version"], f"{what}: imports as {ver!r}, built from {want['version']!r}")
        case.count("fresh_interpreters")
    case.seen(what, place, want["version"].split("+")[0], str(want["dirty"]))


def judge(case, home, root, env, kind, want, out, what):
    """Build and check everything the result says about its version."""
    files = make(case, root, env, kind, out)
    hits = package(out)
    if kind == "editable":
        case.check(not any(open(os.path.join(h, "_version.py")).read() for h in hits), f"{what}: editable froze a copy")
        got = runtime_versions(case, root, clean_env(home), "/")
        for k in FIELDS:
            case.check(got.get(k) == want.get(k), f"{what}: {k} {got.get(k)!r} after, {want.get(k)!r} before")
        return hits
    case.check(len(hits) == 1, f"{what}: {len(hits)} packages in the result")
    have, src = modules(hits[0]), modules(os.path.join(root, "src", "kalmankit"))
    case.check(sorted(have) == sorted(src), f"{what}: modules {sorted(have)}, of the tree {sorted(src)}")
    for f in src:
        case.check(f == "_version.py" or have[f] == src[f], f"{what}: {f} differs from the tree's")
    case.count("modules_compared", len(src))
    ask(case, home, hits[0], want, what)
    for name, to in files:
        for d, _, fs in os.walk(to):
            for f in fs:
                if f in ("METADATA", "PKG-INFO"):
                    meta = email.message_from_string(open(os.path.join(d, f), encoding="utf-8").read())["Version"]
                    case.check(Version(meta) == Version(want["version"]),
                               f"{what}: {f} says {meta!r}, built from {want['version']!r}")
                    case.count("metadata_versions")
        if name is None:
            continue
        norm = Version(want["version"])
        stem = name.removesuffix(".tar.gz").removesuffix(".zip").removesuffix(".whl").split("-")[1]
        case.check(Version(stem.replace("_", ".")) == norm, f"{what}: file {name} built from {want['version']!r}")
    return hits


def tracked(r):
    """Contents, kinds and modes of all tracked files, and what git sees modified."""
    got = {}
    for f in r.git("ls-files", "-z").split("\0"):
        p = os.path.join(r.root, f)
        if f and os.path.lexists(p):
            st = os.lstat(p)
            got[f] = (st.st_mode, os.readlink(p) if os.path.islink(p) else open(p, "rb").read())
        elif f:
            got[f] = None
    return got, r.git("status", "--porcelain", "-uno"), r.git("rev-parse", "HEAD"), r.git("stash", "list")


def report(case, r, env, want):
    """What setup.py says about the version, and the metadata it writes."""
    rng = case.rng
    how = gen.pick(rng, "--version", "version", "egg_info", "--fullname")
    base = os.path.join(r.home, f"info{case.counts['build_commands_run']}")
    os.makedirs(base)
    if how == "egg_info":
        p = run(case, r.root, env, "setup.py", "-q", "egg_info", "-e", base)
    else:
        p = run(case, r.root, env, "setup.py", "-q", how)
    out = p.stdout.decode().strip()
    case.check(p.returncode == 0, f"setup.py {how} failed: {p.stderr.decode(errors='replace')[-300:]}")
    if how == "version":
        got = dict(ln.strip().split(": ", 1) for ln in out.splitlines() if ": " in ln)
        exp = dict([("Version", want["version"]), ("full-revisionid", str(want["full-revisionid"])),
                    ("dirty", str(want["dirty"]))])
        for k in exp:
            case.check(got.get(k) == exp[k], f"setup.py version: {k} {got.get(k)!r}, is {exp[k]!r}")
        ver = got["Version"]
    elif how == "egg_info":
        text = open(os.path.join(base, "kalmankit.egg-info", "PKG-INFO"), encoding="utf-8").read()
        ver = email.message_from_string(text)["Version"]
        case.count("metadata_versions")
    else:
        ver = out.splitlines()[-1].split("-")[-1] if how == "--fullname" else out.splitlines()[-1]
    case.check(Version(ver) == Version(want["version"]), f"setup.py {how}: {ver!r}, {want['version']!r}")
    case.tag(f"asked setup.py {how}")


def repeated(case):
    """The same target built again and again in one checkout while little else changes."""
    require_git()
    rng = case.rng
    with scratch() as home:
        r = Repo(case, home, os.path.join(home, "w", "proj"))
        r.releases = PACKAGEABLE
        r.start()
        env = clean_env(home)
        kind = gen.pick(rng, "build in place", "build in place", "install_lib", "build_py")
        for i in range(int(rng.integers(2, 5))):
            if i:
                move = gen.pick(rng, "retag", "retag", "amend", "soil", "restore", "commit", "nothing")
                if move == "retag":  # a release tag moved: the same version, another commit
                    r.restore()
                    r.commit()
                    t = next((t for t in r.tags if t in RELEASES), None)
                    if t:
                        r.git("tag", "-f", *(["-a", "-m", "moved"] if t in r.annotated else []), t)
                        r.tags[t] = r.head
                elif move != "nothing":
                    getattr(r, move)()
                case.tag(f"between builds: {move}")
            want = build_versions(case, r.root, env)
            r.expect(want, "checkout")
            before = tracked(r)
            if kind == "build_py":  # the same target folder each time
                out = os.path.join(home, "lib")
                p = run(case, r.root, env, "setup.py", "-q", "build_py", "-d", out)
                case.check(p.returncode == 0, f"build_py failed: {p.stderr.decode(errors='replace')[-400:]}")
                ask(case, home, package(out)[0], want, "repeated build_py")
            else:
                judge(case, home, r.root, env, kind, want, os.path.join(home, f"out{i}"), f"{kind} (repeated)")
            after = tracked(r)
            case.check(after == before, f"{kind} changed the checkout: {after[1]!r} before {before[1]!r}")
            case.count("repeated_builds")
        case.desc.update(ops=r.log[-10:], builder=kind)
    case.nontrivial = True


def checkouts(case):
    require_git()
    rng = case.rng
    with scratch() as home:
        r = Repo(case, home, os.path.join(home, "w", "proj"))
        r.releases = PACKAGEABLE
        r.start()
        for i in range(int(gen.pick(rng, 1, 1, 2, 3))):
            for _ in range(int(rng.integers(0, 6))):
                r.step()
            r.case.tag("first build" if i == 0 else "rebuild")
            env = clean_env(home)
            if rng.random() < .2:
                env["GIT_DIR"] = "/nonexistent"
            want = build_versions(case, r.root, clean_env(home))
            r.expect(want, "checkout")
            kind = gen.pick(rng, *LIBS, *SOURCES, "build in place", "build in place", "editable")
            before = tracked(r)
            hits = judge(case, home, r.root, env, kind, want, os.path.join(home, f"out{i}"),
                         f"{kind} of a checkout" + (" (rebuild)" if i else ""))
            after = tracked(r)
            for f in before[0]:
                case.check(after[0].get(f, 0) == before[0][f], f"{kind} changed the tracked file {f}")
            case.check(after == before, f"{kind} changed the checkout: {after[1]!r} before {before[1]!r}")
            case.count("tracked_files_compared", len(before[0]))
            if rng.random() < .4:
                report(case, r, env, want)
            if kind in SOURCES and rng.random() < .8:
                again(case, home, hits[0], want, f"gen{i}")
        case.desc.update(ops=r.log[-10:], version=want["version"], builder=kind)
    case.nontrivial = True


def again(case, home, pkg, want, name):
    """Second generation: build from the unpacked source distribution, elsewhere."""
    rng = case.rng
    src = os.path.dirname(os.path.dirname(pkg))
    inside = rng.random() < .5
    if inside:
        decoy(case, home, os.path.join(home, name, "foreign"))
        root = os.path.join(home, name, "foreign", "vendor")
    else:
        root = os.path.join(home, name, "kalmankit-77.7")
    shutil.copytree(src, root)
    env = clean_env(home)
    if rng.random() < .5:
        env["PATH"] = os.path.join(home, "no-such-bin")
    got = runtime_versions(case, root, env, "/")
    bld = build_versions(case, root, env)
    for k in FIELDS:
        case.check(got.get(k) == bld.get(k) == want.get(k),
                   f"unpacked sdist: {k} {got.get(k)!r} / {bld.get(k)!r}, built from {want.get(k)!r}")
    kind = gen.pick(rng, *LIBS, *SOURCES)
    judge(case, home, root, env, kind, want, os.path.join(home, name + "-out"), f"{kind} of an unpacked sdist")
    case.count("second_generation_builds")


def plain(case):
    """Builds from git archives and from directories without any history."""
    rng = case.rng
    with scratch() as home:
        leaf = gen.pick(rng, "kalmankit-1.2.3", "proj", "kalmankit-0.4rc1", "kalmankit-2.0+local.1")
        root = os.path.join(home, "u", leaf)
        env = clean_env(home)
        if rng.random() < .6:
            require_git()
            r = Repo(case, home, os.path.join(home, "origin"))
            r.releases = PACKAGEABLE
            r.history(int(rng.integers(0, 8)))
            r.restore()
            r.git("archive", "-o", os.path.join(home, "a.tar"), "HEAD")
            os.makedirs(root)
            with tarfile.open(os.path.join(home, "a.tar")) as t:
                t.extractall(root, filter="data")
            src = "archive"
            want = build_versions(case, root, env)
            tags = [t[1:] for t, c in r.tags.items() if c == r.head and t[0] == "v" and t[1:2].isdigit()]
            case.check(want["version"] in (tags or ["0+unknown"]) and want["full-revisionid"] == r.head,
                       f"archive with tags {tags}: {want['version']!r} {want['full-revisionid']}")
        else:
            copy_tree(root)
            src = "directory"
            want = build_versions(case, root, env)
            exp = leaf[len("kalmankit-"):] if leaf.startswith("kalmankit-") else "0+unknown"
            case.check(want["version"] == exp, f"directory {leaf}: {want['version']!r}")
        if rng.random() < .5:
            env["PATH"] = os.path.join(home, "no-such-bin")
        kind = gen.pick(rng, *LIBS, *SOURCES, "build in place")
        hits = judge(case, home, root, env, kind, want, os.path.join(home, "out"), f"{kind} of a plain {src}")
        if kind in SOURCES:
            again(case, home, hits[0], want, "gen")
        case.tag(f"source: {src}")
        case.desc.update(source=src, leaf=leaf, builder=kind, version=want["version"])
    case.nontrivial = True


FAMILIES = {
    "checkouts": (72, 1200, checkouts),
    "plain": (32, 500, plain),
    "repeated": (36, 500, repeated),
}
