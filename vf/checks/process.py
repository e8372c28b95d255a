"""C28 every process computes the same and is left as it was, C29 interrupted computations leave nothing behind."""
import ast
import functools
import glob
import json
import os
import pickle
import struct
import subprocess
import sys

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import gen, spec, worker
from ..core import REPO, VERIF, Violation, lib
from .common import CLEAN, Check, fmt, line, make, mod, note
from .contract import OHLCV, forked, identical
from .meta import bulk
from .usage import fun_call

CONFIGS = [
    {"flags": ["-O"], "env": {"PYTHONHASHSEED": "0", "TZ": "Asia/Tokyo", "LC_ALL": "C"}, "seed": 1,
     "imports": ["ta.volume", "ta.wrapper"]},
    {"flags": ["-OO"], "env": {"PYTHONHASHSEED": "1", "TZ": "America/New_York", "LC_ALL": "C.UTF-8"}, "seed": 77, "clock": 0},
    {"flags": [], "env": {"PYTHONHASHSEED": "4242", "TZ": "UTC"}, "options": True, "clock": 4102444800, "imports": ["ta.utils"]},
    {"flags": ["-X", "dev"], "env": {"PYTHONHASHSEED": "31337"}, "warn": True, "imports": ["ta.others", "ta.trend"]},
    {"flags": [], "env": {"PYTHONHASHSEED": "7"}, "unusual": True, "seed": 5},
]
_workers = {}


def ask(k, jobs, sers):
    w = _workers.get((os.getpid(), k))
    if w is None or w.poll() is not None:
        c = CONFIGS[k]
        env = {x: v for x, v in os.environ.items() if not x.startswith("PYTHON")}
        if k in (0, 3):
            # whatever switch the code under test may look up in its environment is turned on
            env.update({x: "1" if k else "true" for x in gen.DICT_STR
                        if x.isidentifier() and x not in os.environ and not x.startswith(("PYTHON", "LD_", "LC_", "MALLOC"))})
        env.update(c["env"], PYTHONDONTWRITEBYTECODE="1")
        w = _workers[os.getpid(), k] = subprocess.Popen(
            [sys.executable] + c["flags"] + [os.path.join(VERIF, "vf", "worker.py"), REPO, json.dumps(c)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd="/")
    b = pickle.dumps((jobs, sers), protocol=4)
    try:
        w.stdin.write(struct.pack("<q", len(b)) + b)
        w.stdin.flush()
        h = w.stdout.read(8)
        if len(h) == 8:
            return pickle.loads(w.stdout.read(struct.unpack("<q", h)[0]))
    except BrokenPipeError:
        pass
    raise Violation("a process started with %s ended with %s while it computed" % (CONFIGS[k], w.wait()))


class Processes(Check):
    ID = "C28"
    RULE = ("a list of jobs (indicator line, function, bulk builder) on a drawn history, computed here and in one of five "
            "long-lived processes that differ in hash seed, optimisation flags, time zone, locale, clock, random seeds, "
            "pandas/NumPy options, import order and in the jobs they did before; the answers must agree (values, labels, "
            "names, order of columns) and the process state (error handling, options, warning filters, random state, environment, "
            "working directory, standard output ...) must be the same after each job. Non-trivial: two or more jobs or a bulk "
            "frame, with a result that has two different values.")
    ASSUMPTIONS = CLEAN + ["the state compared is the list in vf/worker.py"]

    def tasks(self, tier):
        n = 80 if tier == "quick" else 2500
        return [(i.cls, n) for i in spec.IND.values()] + [("mixed", 4 * n), ("bulk", 2 * n)]

    def generate(self, draw, task):
        n = gen.length(draw, 1, 200, long_ok=False)
        data, meta = gen.history(draw, n)
        jobs = []
        inds = list(spec.IND.values()) if task in ("mixed", "bulk") else [spec.IND[task]]
        if task == "bulk":
            jobs = [["bulk", draw(st.booleans()), draw(st.booleans())]]
        else:
            for _ in range(draw(st.integers(1, 4))):
                i = draw(st.sampled_from(inds))
                names = sorted(f for f, x in spec.FUN.items() if x[1] == i.cls)
                if names and draw(st.integers(0, 3)) == 0:
                    jobs.append(["fun", draw(st.sampled_from(names)), gen.params(draw, i, n), draw(st.booleans())])
                else:
                    jobs.append(["line", i.cls, gen.params(draw, i, n), draw(st.booleans()),
                                 draw(st.sampled_from(sorted(i.lines)))])
        return {"data": data, "meta": meta, "ops": jobs, "where": draw(st.integers(0, len(CONFIGS) - 1)),
                "index": draw(st.sampled_from(["range", "date", "datetz", "str", "dup", "float"]))}

    def run(self, case, stats):
        note(stats, dict(case, fill="both"))
        ser = gen.frame(case["data"], case["index"])
        here, wire = [], []
        for j in case["ops"]:
            stats.c["job:" + j[0]] += 1
            if j[0] == "line":
                i = spec.IND[j[1]]
                here.append(line(make(i, ser, j[2], j[3]), j[4]))
                wire.append(("line", i.mod, i.cls, i.ins, j[2], j[3], j[4]))
            elif j[0] == "fun":
                m, cls, acc, args, fixed = spec.FUN[j[1]]
                given = {a for a, _ in args}
                r, _, _, p = fun_call(j[1], ser, j[3], j[2])
                here.append(r)
                wire.append(("fun", m, j[1], [a for a, _ in args if a in spec.IND[cls].ins],
                             {k: v for k, v in p.items() if k in given}, j[3]))
            else:
                df = pd.DataFrame({k: s.copy() for k, s in ser.items()})
                import ta
                here.append(lib(ta.add_all_ta_features, df, *OHLCV, fillna=j[1], vectorized=j[2]))
                wire.append(("bulk", j[1], j[2]))
        stats.c["process:%d" % case["where"]] += 1
        there = ask(case["where"], wire, ser)
        vary = False
        cfg = {k: v for k, v in CONFIGS[case["where"]].items()}
        for j, a, (kind, b, what) in zip(case["ops"], here, there):
            name = "%s%s" % (j[1] if j[0] != "bulk" else "bulk", fmt(j[2]) if isinstance(j[2], dict) else j[1:])
            if kind == "raises":
                raise Violation("%s raises %s in a process started with %s" % (name, b, cfg))
            if what:
                raise Violation("%s in a process started with %s: %s" % (name, cfg, what))
            if isinstance(a, pd.DataFrame):
                if list(a.columns) != list(b.columns):
                    k = [x != y for x, y in zip(a.columns, b.columns)].index(True)
                    raise Violation("bulk column %d is %s here and %s in a process started with %s" % (
                        k, a.columns[k], b.columns[k], cfg))
                pairs = [(c, a[c], b[c]) for c in a.columns]
            else:
                pairs = [(name, a, b)]
            for c, x, y in pairs:
                w = identical(x, y)
                if w:
                    raise Violation("%s: %s in a process started with %s" % (c, w, cfg))
                v = np.asarray(x, float)
                v = v[np.isfinite(v)]
                vary = vary or (len(v) > 1 and v.min() < v.max())
        return bool(vary and (len(case["ops"]) > 1 or case["ops"][0][0] == "bulk"))


# ------------------------------------------------------------------ C29
class Interrupted(BaseException):
    pass


@functools.lru_cache(None)
def _quiet_lines():
    """lines on which no interruption is injected: headers of with-blocks, and finally/except blocks, where an
    asynchronous exception could beat any clean-up"""
    out = {}
    for f in glob.glob(os.path.join(REPO, "ta", "*.py")):
        s = set()
        try:
            tree = ast.parse(open(f).read())
        except SyntaxError:
            continue
        for nd in ast.walk(tree):
            if isinstance(nd, (ast.With, ast.AsyncWith)):
                s.update(range(nd.lineno, nd.body[0].lineno))
            elif isinstance(nd, ast.Try):
                s.add(nd.lineno)
                for b in nd.finalbody + nd.handlers:
                    s.update(range(b.lineno, b.end_lineno + 1))
                if nd.finalbody:
                    s.update(range(max(1, nd.lineno - 3), nd.lineno))
            # the statements just before try: are where a state change is made that finally: undoes
            for body in (getattr(nd, "body", None), getattr(nd, "orelse", None)):
                if isinstance(body, list):
                    for k, x in enumerate(body):
                        if isinstance(x, ast.Try) and x.finalbody:
                            for y in body[max(0, k - 2):k]:
                                s.update(range(y.lineno, y.end_lineno + 1))
            if isinstance(nd, (ast.FunctionDef,)) and any(
                    isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(nd)):
                s.update(range(nd.lineno, nd.end_lineno + 1))
        out[os.path.realpath(f)] = s
    return out


class Fuse:
    """raises `exc` at the k-th executed line of the library (counted from 1); counts only when k is None"""

    def __init__(self, k, exc=Interrupted):
        self.k, self.exc, self.n, self.fired = k, exc, 0, None
        self.quiet = _quiet_lines()
        self.files = {}

    def local(self, frame, event, arg):
        if event == "line":
            q = self.quiet.get(self.files[frame.f_code.co_filename], ())
            if frame.f_lineno not in q:
                self.n += 1
                if self.n == self.k:
                    self.fired = (os.path.basename(frame.f_code.co_filename), frame.f_lineno, frame.f_code.co_name)
                    raise self.exc()
        return self.local

    def glob(self, frame, event, arg):
        f = frame.f_code.co_filename
        r = self.files.get(f)
        if r is None:
            r = os.path.realpath(f)
            self.files[f] = r
        return self.local if r in self.quiet else None

    def __call__(self, f):
        sys.settrace(self.glob)
        try:
            return f()
        finally:
            sys.settrace(None)


class Interrupts(Check):
    ID = "C29"
    PER = 40
    RULE = ("a sequence of computations (object, line, function, bulk builder) in a forked child, of which some are cut off by an "
            "exception (interrupt or out of memory) at a drawn executed line of the library, or fail because of an invalid argument; the caller's series "
            "and all earlier results must be unchanged, and everything asked afterwards - the same object, a new one, the same "
            "bulk frame - must equal the answer of a process in which nothing was cut off. Non-trivial: a cut happened "
            "inside the library and something was asked afterwards.")
    ASSUMPTIONS = CLEAN + ["cuts fall between lines of the library, outside with-headers and finally/except blocks"]

    def tasks(self, tier):
        n = 40 if tier == "quick" else 1500
        return [(i.cls, n) for i in spec.IND.values()] + [("mixed", 6 * n), ("bulk", 4 * n)] + \
            [("every line of " + i.cls, max(3, n // 8)) for i in spec.IND.values()]

    def generate(self, draw, task):
        if task.startswith("every"):
            i = spec.IND[task.split()[-1]]
            n = gen.length(draw, 1, 60, long_ok=False) if draw(st.integers(0, 4)) else draw(st.integers(1, 8))
            data, meta = gen.history(draw, n)
            return {"data": data, "meta": meta, "index": "range", "every": i.cls, "params": gen.params(draw, i, n, cap=n + 3),
                    "fill": draw(st.booleans()), "first": draw(st.sampled_from([None, None] + sorted(i.lines)))}
        n = gen.length(draw, 1, 90, long_ok=False) if draw(st.integers(0, 4)) else draw(st.integers(1, 8))
        data, meta = gen.history(draw, n)
        inds = list(spec.IND.values()) if task in ("mixed", "bulk") else [spec.IND[task]]
        ops, slots = [], []

        def cut():
            k = draw(st.integers(0, 9))
            if k < 5:
                return None
            # fraction of the executed lines, so that the cut always falls inside
            return [draw(st.integers(0, 1000)), draw(st.sampled_from(["int", "int", "mem"]))]

        if task == "bulk":
            pre = draw(st.sampled_from(["", "a_"]))
            f, v = draw(st.booleans()), draw(st.booleans())
            ops = [["bulk", f, v, pre, [draw(st.integers(0, 1000)), "int"]]]
            if draw(st.booleans()):
                ops.append(["bulk", f, v, pre, None])
            i = draw(st.sampled_from(inds))
            ops.append(["new", i.cls, gen.params(draw, i, n), draw(st.booleans()), None])
            ops.append(["get", 0, draw(st.sampled_from(sorted(i.lines))), None])
        else:
            for _ in range(draw(st.integers(3, 8))):
                k = draw(st.sampled_from(["new", "get", "get", "get", "fun", "bad"]))
                if k == "get" and not slots:
                    k = "new"
                if k == "bad":
                    i = draw(st.sampled_from(inds))
                    ops.append(["bad", i.cls, draw(st.sampled_from(["text", "short", "none", "window"]))])
                elif k == "new":
                    if slots and draw(st.booleans()):
                        old = [o for o in ops if o[0] == "new"]
                        ops.append(list(draw(st.sampled_from(old)))[:4] + [cut()])
                        c = ops[-1][1]
                    else:
                        i = draw(st.sampled_from(inds))
                        c = i.cls
                        ops.append(["new", c, gen.params(draw, i, n, cap=n + 3), draw(st.booleans()), cut()])
                    slots.append(c)
                elif k == "get":
                    s = draw(st.integers(0, len(slots) - 1))
                    ops.append(["get", s, draw(st.sampled_from(sorted(spec.IND[slots[s]].lines))), cut()])
                else:
                    names = sorted(f for f, x in spec.FUN.items() if x[1] in [i.cls for i in inds])
                    if names:
                        ops.append(["fun", draw(st.sampled_from(names)), draw(st.booleans()), cut()])
            # whatever was cut off is asked for again
            for o in list(ops):
                if o[0] == "get" and o[3]:
                    ops.append(["get", o[1], o[2], None])
                    break
        return {"data": data, "meta": meta, "index": draw(st.sampled_from(["range", "date", "str", "dup"])), "ops": ops}

    @staticmethod
    def bad(cls, how, ser):
        """an invalid call; whatever it does or raises is not judged"""
        i = spec.IND[cls]
        a = {k: ser[k] for k in i.ins}
        k0 = i.ins[-1]
        p = i.defaults()
        if how == "text":
            a[k0] = pd.Series(["x"] * len(ser[k0]), index=ser[k0].index)
        elif how == "short":
            a[k0] = ser[k0].iloc[:0]
        elif how == "none":
            a[k0] = None
        else:
            w = [x[0] for x in i.params if x[2] == "w"]
            if not w:
                return
            p[w[0]] = -3
        try:
            o = getattr(mod(i.mod), cls)(**a, **p)
            for x in i.lines:
                getattr(o, x)()
        except Exception:  # noqa
            pass

    @staticmethod
    def cut_off(f, cut, fresh):
        """run f with a cut at a fraction of the lines a run of `fresh` executes -> (result or None, was cut)"""
        if cut is None:
            return f(), None
        c = Fuse(None)
        c(fresh)
        if c.n == 0:
            return f(), None
        exc = {"int": Interrupted, "mem": MemoryError}[cut[1]]
        fuse = Fuse(1 + cut[0] * c.n // 1001, exc)
        before = worker.state(np, pd)
        try:
            return fuse(f), fuse.fired
        except (exc, MemoryError):
            return None, fuse.fired
        finally:
            w = worker.diff(before, worker.state(np, pd))
            if w:
                raise Violation("cut off at %s: %s" % (fuse.fired, w))

    @staticmethod
    def sweep(case):
        """cut off the constructor and every line at every executed line of the library; whatever the object (or, when
        its construction was cut off, a new one) answers afterwards, line by line -> [(where, {line: answer})]"""
        i = spec.IND[case["every"]]
        ser = gen.frame(case["data"], case["index"])
        snap = {k: s.copy(deep=True) for k, s in ser.items()}

        def build():
            o = getattr(mod(i.mod), i.cls)(**{k: ser[k] for k in i.ins}, **case["params"], fillna=case["fill"])
            if case["first"]:
                getattr(o, case["first"])()
            return o
        out = []
        for what in [None] + sorted(i.lines):
            k, count = 0, None
            while True:
                if what is None:
                    o, f = None, build
                else:
                    o = lib(build)
                    f = getattr(o, what)
                if count is None:
                    c = Fuse(None)
                    c(f)
                    count = c.n
                    o = lib(build)
                    f = build if what is None else getattr(o, what)
                    # long loops: at most about forty cuts, spread evenly
                    step = max(1, count // 40)
                k += step
                if k > count:
                    break
                fuse = Fuse(k, MemoryError if k % 3 == 0 else Interrupted)
                before = worker.state(np, pd)
                try:
                    fuse(f)
                except (Interrupted, MemoryError):
                    pass
                w = worker.diff(before, worker.state(np, pd))
                if w:
                    raise Violation("%s, cut off in %s at %s: %s" % (i.cls, what or "the constructor", fuse.fired, w))
                if not fuse.fired:
                    continue
                if what is None:
                    o = lib(build)
                out.append((what or "the constructor", fuse.fired, {x: line(o, x) for x in sorted(i.lines)}))
                for name in ser:
                    w = identical(snap[name], ser[name])
                    if w:
                        raise Violation("%s, cut off in %s at %s: the caller's %s series has %s" % (
                            i.cls, what or "the constructor", fuse.fired, name, w))
        return out

    def run_every(self, case, stats):
        i = spec.IND[case["every"]]
        note(stats, dict(case, ind=i.cls))
        _quiet_lines()

        def fresh():
            o = make(i, gen.frame(case["data"], case["index"]), case["params"], case["fill"])
            if case["first"]:
                line(o, case["first"])
            return {x: line(o, x) for x in sorted(i.lines)}
        want = forked(fresh)
        for what, at, got in forked(lambda: self.sweep(case)):
            stats.c["cuts"] += 1
            for x in want:
                w = identical(want[x], got[x])
                if w:
                    raise Violation("%s(%s) fillna=%s: after %s was cut off at %s, line %s has %s than without the cut" % (
                        i.cls, fmt(case["params"]), case["fill"], what, at, x, w))
        return len(case["data"]["close"]) > 1

    def play(self, case):
        ser = gen.frame(case["data"], case["index"])
        snap = {k: s.copy(deep=True) for k, s in ser.items()}
        clean = {k: s.copy(deep=True) for k, s in ser.items()}
        slots, answers, kept = [], [], []
        cuts, asked = [], 0
        df = None
        for op in case["ops"]:
            got = None
            if op[0] == "bad":
                before = worker.state(np, pd)
                self.bad(op[1], op[2], ser)
                w = worker.diff(before, worker.state(np, pd))
                if w:
                    raise Violation("after the failed call %r: %s" % (op, w))
            elif op[0] == "new":
                i = spec.IND[op[1]]

                def build(s=ser, i=i, op=op):
                    return getattr(mod(i.mod), i.cls)(**{k: s[k] for k in i.ins}, **op[2], fillna=op[3])
                if op[4] is None:
                    o, hit = lib(build), None
                else:
                    o, hit = self.cut_off(build, op[4], lambda: build(clean))
                slots.append((o, op[1], op[2], op[3]))
            elif op[0] == "get":
                if op[1] < len(slots) and slots[op[1]][0] is not None:
                    o, cls, p, fill = slots[op[1]]
                    if op[2] in spec.IND[cls].lines:
                        if op[3] is None:
                            got, hit = line(o, op[2]), None
                        else:
                            twin = make(spec.IND[cls], clean, p, fill)
                            got, hit = self.cut_off(getattr(o, op[2]), op[3], getattr(twin, op[2]))
                        if hit:
                            cuts.append(hit)
                hit = None
            elif op[0] == "fun":
                def call(s=ser, op=op):
                    m, cls, acc, args, fixed = spec.FUN[op[1]]
                    return getattr(mod(m), op[1])(**{a: s[a] for a, _ in args if a in spec.IND[cls].ins}, fillna=op[2])
                if op[3] is None:
                    got, hit = lib(call), None
                else:
                    got, hit = self.cut_off(call, op[3], lambda: call(clean))
            else:
                if df is None:
                    df = pd.DataFrame({k: s.copy() for k, s in ser.items()})

                def build(d=None, op=op):
                    import ta
                    d = df if d is None else d
                    return ta.add_all_ta_features(d, *OHLCV, fillna=op[1], vectorized=op[2], colprefix=op[3])
                if op[4] is None:
                    r, hit = lib(build), None
                else:
                    r, hit = self.cut_off(build, op[4], lambda: build(pd.DataFrame({k: s.copy() for k, s in clean.items()})))
                if r is not None:
                    got = r
                if df.index.name != snap["close"].index.name or list(df.columns[:5]) != list(snap):
                    raise Violation("after %r, cut off at %s, the index of the caller's frame is named %r, its first columns are %s" % (
                        op, hit, df.index.name, list(df.columns[:5])))
                for k in OHLCV:
                    w = identical(snap[k], df[k])
                    if w:
                        raise Violation("after %r, cut off at %s, column %s of the caller's frame has %s" % (op, hit, k, w))
            if op[0] != "bad" and op[0] != "get" and hit:
                cuts.append(hit)
            for k in ser:
                w = identical(snap[k], ser[k])
                if w:
                    raise Violation("after %r, cut off at %s, the caller's %s series has %s" % (
                        op, cuts[-1] if cuts else None, k, w))
            for j, (o2, g, c) in enumerate(kept):
                w = identical(c, g)
                if w:
                    raise Violation("%r, cut off at %s, changed the earlier result of %r: %s" % (
                        op, cuts[-1] if cuts else None, o2, w))
            if got is not None:
                asked += bool(cuts)
                if isinstance(got, pd.Series):
                    kept.append((op, got, got.copy(deep=True)))
            answers.append(None if got is None else got.copy(deep=True))
        return answers, cuts, asked

    def run(self, case, stats):
        if "every" in case:
            return self.run_every(case, stats)
        note(stats, dict(case, fill="both"))
        _quiet_lines()
        answers, cuts, asked = forked(lambda: self.play(case))
        for c in cuts:
            stats.c["cuts"] += 1
        slots = []
        memo = {}
        for op, got in zip(case["ops"], answers):
            if op[0] == "new":
                slots.append(op)
            if got is None:
                continue
            if op[0] == "get":
                _, cls, p, fill, _ = slots[op[1]]
                key = (cls, repr(p), fill, op[2])

                def fresh():
                    return line(make(spec.IND[cls], gen.frame(case["data"], case["index"]), p, fill), op[2])
            elif op[0] == "fun":
                key = ("fun", op[1], op[2])

                def fresh():
                    return fun_call(op[1], gen.frame(case["data"], case["index"]), op[2])[0]
            else:
                key = ("bulk",) + tuple(op[1:4])

                def fresh():
                    import ta
                    return lib(ta.add_all_ta_features, pd.DataFrame(gen.frame(case["data"], case["index"])), *OHLCV,
                               fillna=op[1], vectorized=op[2], colprefix=op[3])
            if key not in memo:
                memo[key] = forked(fresh)
            want = memo[key]
            if isinstance(want, pd.DataFrame):
                if set(want.columns) != set(got.columns):
                    w = "columns %s" % sorted(set(want.columns) ^ set(got.columns))[:3]
                else:
                    w = next((("column %s: %s" % (c, x)) for c in want.columns for x in [identical(want[c], got[c])] if x), None)
            else:
                w = identical(want, got)
            if w:
                raise Violation("%r of %r after cuts at %s: %s than in a process without cuts" % (
                    op, [o[:4] for o in case["ops"]], cuts[:3], w))
        return bool(cuts) and asked > 0
