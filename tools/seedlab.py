"""Developer tool: try planted changes from /verif/seeded in scratch copies of /repo.

usage: seedlab.py ID [Cxx ...]   validates the change and runs the given checks (default: its property's)
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, t=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode(errors="replace")


def main(ident, props):
    d = f"/verif/seeded/{ident}"
    meta = json.load(open(d + "/meta.json"))
    props = props or [meta["property"]]
    if props == ["all"]:
        props = [f"C{i:02d}" for i in range(1, 1 + len(glob.glob("/verif/kk/c[0-9][0-9].py")))]
    w = tempfile.mkdtemp(prefix="sl-")
    r = os.path.join(w, "repo")
    lab = os.path.join(w, "demo")
    os.makedirs(lab)
    for f in os.listdir(d):
        if f not in ("patch.diff", "meta.json"):
            shutil.copy(os.path.join(d, f), lab)
    env = dict(os.environ, PYTHONPATH=r + "/src", PYTHONDONTWRITEBYTECODE="1")
    try:
        shutil.copytree("/repo", r, symlinks=True)
        sh("git checkout -q -- .", r)
        ok, out = sh(["bash", lab + "/demo.sh"], r, env)
        bad = []
        if ok:
            bad.append(f"demo fails unpatched: {out[-400:]}")
        a, out = sh(["git", "apply", d + "/patch.diff"], r)
        if a:
            bad.append("patch does not apply " + out)
        t, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider"], r, env)
        if t:
            bad.append("tests fail " + out[-300:])
        k, dout = sh(["bash", lab + "/demo.sh"], r, env)
        if not k:
            bad.append("demo passes patched")
        print(ident, meta["property"], "INVALID: " + "; ".join(bad) if bad else "valid", flush=True)
        if bad:
            return
        for p in props:
            c, out = sh(["/verif/check.sh", p, "quick"], "/verif", dict(os.environ, KK_REPO=r))
            first = out.strip().splitlines()[0][:150] if c else ""
            print(f"   {p}: {'CAUGHT' if c == 1 and 'VIOLATION property=' + p in out else 'missed' if c == 0 else 'rc=%d' % c}"
                  f" {first}", flush=True)
    finally:
        shutil.rmtree(w)


main(sys.argv[1], sys.argv[2:])
