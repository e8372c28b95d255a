"""A separate Python process that computes what it is asked to; started by checks/process.py.
argv: repository, json settings.  Speaks length-prefixed pickles on its original stdin/stdout."""
import json
import os
import pickle
import shutil
import struct
import sys
import tempfile


def main():
    repo, cfg = sys.argv[1], json.loads(sys.argv[2])
    sys.dont_write_bytecode = True
    sys.path.insert(0, repo)
    inp = os.fdopen(os.dup(0), "rb")
    out = os.fdopen(os.dup(1), "wb")
    home = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="vfw")
    noise = os.path.join(scratch, "stdout")
    cwd = os.path.join(scratch, "cwd")
    os.mkdir(cwd)
    os.chdir(cwd)
    fd = os.open(noise, os.O_CREAT | os.O_WRONLY | os.O_APPEND)
    os.dup2(fd, 1)
    try:
        if cfg.get("clock") is not None:
            import time
            time.time = lambda: float(cfg["clock"])
            time.time_ns = lambda: int(cfg["clock"]) * 10 ** 9
        import random

        import numpy as np
        import pandas as pd
        if cfg.get("seed") is not None:
            random.seed(cfg["seed"])
            np.random.seed(cfg["seed"] % 1000)
        if cfg.get("options"):
            pd.set_option("compute.use_bottleneck", False)
            pd.set_option("compute.use_numexpr", False)
            pd.set_option("display.precision", 2)
            pd.set_option("mode.chained_assignment", None)
            pd.set_option("future.no_silent_downcasting", True)
            np.set_printoptions(precision=2)
            np.seterr(all="ignore")
            import decimal
            decimal.getcontext().prec = 5
        if cfg.get("unusual"):
            import gc
            gc.disable()
            gc.set_threshold(5000, 20, 20)
            sys.setswitchinterval(0.02)
            sys.setrecursionlimit(1500)
            np.seterr(divide="ignore", over="print", invalid="warn", under="warn")
            pd.set_option("display.max_rows", 7)
            pd.set_option("display.width", 33)
            os.environ["VF_NOTE"] = "kept"
        if cfg.get("warn"):
            import warnings
            warnings.simplefilter("ignore")
        import importlib
        before = state(np, pd)
        for m in cfg.get("imports", []):
            importlib.import_module(m)
        import ta
        changed = diff(before, state(np, pd))
        import ta.momentum, ta.others, ta.trend, ta.volatility, ta.volume, ta.utils  # noqa
        assert os.path.realpath(ta.__file__).startswith(os.path.realpath(repo)), ta.__file__
        while True:
            h = inp.read(8)
            if len(h) < 8:
                break
            jobs, sers = pickle.loads(inp.read(struct.unpack("<q", h)[0]))
            res = []
            for job in jobs:
                if cfg.get("unusual"):
                    gc.collect()
                s0, n0 = state(np, pd), os.path.getsize(noise)
                try:
                    r = ("ok", do(job, sers, ta, pd, repo))
                except Exception as e:  # noqa
                    r = ("raises", "%s: %s" % (type(e).__name__, str(e)[:160]))
                sys.stdout.flush()
                what = changed or diff(s0, state(np, pd))
                changed = ""
                if not what and os.path.getsize(noise) != n0:
                    what = "something was printed to standard output"
                if not what and os.listdir(cwd):
                    what = "a file appeared in the working directory: %s" % os.listdir(cwd)[:2]
                res.append(r + (what,))
            b = pickle.dumps(res, protocol=4)
            out.write(struct.pack("<q", len(b)) + b)
            out.flush()
    finally:
        os.chdir(home)
        shutil.rmtree(scratch, ignore_errors=True)


def do(job, sers, ta, pd, repo):
    import importlib
    if job[0] == "line":
        _, mod, cls, ins, p, fill, acc = job
        return getattr(getattr(importlib.import_module("ta." + mod), cls)(**{k: sers[k] for k in ins}, **p, fillna=fill), acc)()
    if job[0] == "fun":
        _, mod, name, ins, p, fill = job
        return getattr(importlib.import_module("ta." + mod), name)(**{k: sers[k] for k in ins}, **p, fillna=fill)
    _, fill, vec = job
    return ta.add_all_ta_features(pd.DataFrame({k: s.copy() for k, s in sers.items()}), "open", "high", "low", "close",
                                  "volume", fillna=fill, vectorized=vec)


def state(np, pd):
    import builtins
    import decimal
    import gc
    import locale
    import random
    import signal
    import threading
    import warnings
    from pandas._config import config
    return {
        "numpy error handling": np.geterr(),
        "numpy print options": {k: repr(v) for k, v in np.get_printoptions().items()},
        "numpy random state": hash(np.random.get_state()[1].tobytes()) ^ np.random.get_state()[2],
        "random state": hash(random.getstate()),
        "pandas options": {k: repr(config.get_option(k)) for k in OPTIONS(config)},
        "warning filters": [tuple(map(repr, f)) for f in warnings.filters],
        "environment variables": dict(os.environ),
        "working directory": os.getcwd(),
        "import path": list(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "thread switch interval": sys.getswitchinterval(),
        "decimal context": repr(decimal.getcontext()),
        "locale": locale.setlocale(locale.LC_ALL, None),
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "signal handlers": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        "threads": threading.active_count(),
        "exit and error hooks": [repr(sys.excepthook), repr(sys.displayhook)],
        "builtins": sorted(dir(builtins)),
        "pandas Series": sorted(dir(pd.Series)),
        "pandas DataFrame": sorted(dir(pd.DataFrame)),
        "shown warnings": repr(warnings.showwarning),
    }


_O = []


def OPTIONS(config):
    if not _O:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for k in config._registered_options:
                try:
                    if k not in config._deprecated_options:
                        config.get_option(k)
                        _O.append(k)
                except Exception:  # noqa
                    pass
    return _O


def diff(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                ks = [x for x in sorted(set(a[k]) | set(b[k])) if a[k].get(x) != b[k].get(x)]
                return "%s changed: %s" % (k, ", ".join("%s %s -> %s" % (x, a[k].get(x), b[k].get(x)) for x in ks[:3]))
            return "%s changed: %s -> %s" % (k, str(a[k])[:80], str(b[k])[:80])
    return ""


if __name__ == "__main__":
    main()
