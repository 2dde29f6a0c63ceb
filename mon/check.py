import importlib
import os
import sys

import matplotlib
matplotlib.use("Agg")
import diff_diff

from mon.core import REPO


def _main():
    argv = sys.argv[1:]
    if not os.path.abspath(diff_diff.__file__).startswith(REPO + "/"):
        print("diff_diff not imported from /repo:", diff_diff.__file__)
        return 3
    pid = argv[0].upper()
    mod = importlib.import_module("mon.props." + pid.lower())
    from mon import core
    return core.main(pid, mod, argv[1:])


if __name__ == "__main__":
    sys.exit(_main())
