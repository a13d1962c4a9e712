import argparse
import importlib
import os
import sys
import traceback


GPU_CHECKS = ("C29", "C30")  # these load the library with the stand-in for CuPy


def run():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="only check that the code under test can be loaded")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from . import core, target

    if a.pid in GPU_CHECKS:
        from . import gpusim

        gpusim.install()
    try:
        target.load()
    except BaseException:
        traceback.print_exc(file=sys.stdout)
        print(f"the library cannot be built or imported from {target.REPO}")
        print(f"VIOLATION property={a.pid} replay=none")
        return 1
    if a.selftest:
        print(target.INFO)
        return 0
    import numpy

    numpy.seterr(all="ignore")
    mod = importlib.import_module(f"mc.checks.{a.pid.lower()}")
    return core.main(a.pid, mod, a.tier, seed, a.replay, a.v)


if __name__ == "__main__":
    sys.exit(run())
