import argparse
import importlib
import os
import sys
import warnings

REPO = os.environ.get("KK_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--family", action="append")
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    warnings.simplefilter("ignore")
    from kk import core
    import kalmankit
    want = os.path.join(os.path.realpath(REPO), "src", "kalmankit", "__init__.py")
    if os.path.realpath(kalmankit.__file__) != want:
        print("wrong kalmankit imported:", kalmankit.__file__)
        return 2
    mod = importlib.import_module("kk." + a.prop.lower())
    for text in core.known_findings(a.prop):
        print(f"KNOWN-FINDING: property={a.prop} {text}")
    if a.replay:
        return core.replay(mod, a.replay)
    seed = int(os.environ.get("VERIF_SEED") or 1)
    return core.run(mod, a.tier, seed, a.family, a.workers)


sys.exit(main())
