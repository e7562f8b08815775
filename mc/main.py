import argparse
import importlib
import os
import sys

from . import lib


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    a = ap.parse_args()
    lib.quiet()
    try:
        import pandalone

        assert os.path.realpath(pandalone.__file__).startswith(lib.REPO + os.sep), (
            pandalone.__file__,
            lib.REPO,
        )
        mod = importlib.import_module("mc.checks." + a.pid.lower())
    except Exception as ex:
        if lib.from_repo(ex.__traceback__) and not isinstance(ex, ImportError):
            print("VIOLATION property=%s replay=none" % a.pid)
        raise
    sys.exit(lib.main(mod, a.tier, a.replay))


if __name__ == "__main__":
    main()
