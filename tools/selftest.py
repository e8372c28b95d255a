#!/usr/bin/env python3
"""setup_cmd: nothing is built (the checks import the code from /repo as it is); this only makes sure that the
interpreter, Hypothesis, the library and every check can be loaded here."""
import os
import sys

sys.argv[0] = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "check.py")
VENV = "/opt/venv/bin/python"
try:
    import pandas  # noqa
except ImportError:
    os.execv(VENV, [VENV, os.path.abspath(__file__)])
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa

from vf.checks import get  # noqa
from vf.checks.registry import ids  # noqa

for i in ids():
    c = get(i)
    assert c.tasks("quick") and c.RULE
print("ok: %d checks load (pandas %s, hypothesis %s)" % (len(ids()), pandas.__version__,
                                                          sys.modules["hypothesis"].__version__))
