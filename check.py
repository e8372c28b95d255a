#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough]   decide one property
   check.py Cxx --replay FILE            re-run one recorded case without Hypothesis"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
os.environ.setdefault("VERIF_REPO", REPO)
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
VENV = "/opt/venv/bin/python"
try:
    import pandas  # noqa
except ImportError:
    if os.path.exists(VENV) and sys.prefix != "/opt/venv":
        os.execv(VENV, [VENV] + sys.argv)
    raise
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
try:
    import hypothesis  # noqa
except ImportError:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    try:
        import hypothesis  # noqa
    except ImportError:
        import glob
        sys.path.pop()
        for pat in ("hypothesis-*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
            sys.path.extend(glob.glob("/opt/veriftools/wheels/" + pat))
        import hypothesis  # noqa


def main(argv):
    import importlib
    import json
    import warnings
    warnings.simplefilter("ignore")
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import ta
    assert os.path.realpath(ta.__file__).startswith(os.path.realpath(REPO)), ta.__file__
    from vf import core
    from vf.checks import get
    check = get(pid)
    if "--replay" in argv:
        rec = json.load(open(argv[argv.index("--replay") + 1]))
        try:
            check.run(rec["case"], core.Stats())
        except (core.Violation, ArithmeticError, AttributeError, LookupError, TypeError, ValueError) as v:
            print("VIOLATION property=%s replay=%s\n  %s" % (pid, argv[argv.index("--replay") + 1], v))
            return 1
        print("holds on this case")
        return 0
    return core.main(check, tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv))
