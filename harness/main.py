import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--seed", type=int, default=None)
    a = ap.parse_args()
    replay_path = os.path.abspath(a.replay) if a.replay else None
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    # private scratch for everything the libraries want to write
    scratch = tempfile.mkdtemp(prefix="nfv_home_")
    os.environ["HOME"] = scratch
    os.environ["MPLCONFIGDIR"] = scratch
    os.environ["XDG_CACHE_HOME"] = scratch
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    os.chdir(scratch)
    try:
        from harness import core

        mod = importlib.import_module("checks." + a.property)
        if replay_path:
            return core.replay(replay_path)
        return core.run_property(
            a.property,
            mod.TITLE,
            a.tier,
            seed,
            assumptions=getattr(mod, "ASSUMPTIONS", ()),
            only=a.only,
        )
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    import traceback

    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
