"""Entry point: python -m harness.run C01 [--tier quick|thorough] [--seed N] [--case scenario[:round]] [-v]"""
import argparse
import importlib
import os
import pkgutil
import sys

for k in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ[k] = "1"
os.environ["CUDA_VISIBLE_DEVICES"] = ""
os.environ["MPLBACKEND"] = "agg"
sys.dont_write_bytecode = True

from harness import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, core.REPO)
    import torch

    torch.set_num_threads(1)
    import irtorch

    src = os.path.abspath(irtorch.__file__)
    if not src.startswith(os.path.abspath(core.REPO) + os.sep):
        print(f"INCONCLUSIVE irtorch was imported from {src}, not from {core.REPO}")
        return 2
    importlib.import_module(f"harness.checks.{a.property.lower()}")
    only = None
    if a.case:
        n, _, r = a.case.partition(":")
        only = (n, int(r) if r else None)
    return core.run_property(a.property, a.tier, a.seed, only, a.jobs, a.v)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code
    except BaseException:
        import traceback

        traceback.print_exc()
        print("INCONCLUSIVE the check itself failed")
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
