"""C22 results belong to the caller, C23 concurrent use, C24 storage and argument types make no difference."""
import os
import sys
import itertools
import threading

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import gen, spec
from ..core import REPO, Violation, lib
from .common import CLEAN, Check, fmt, line, make, mod, note, outputs
from .contract import OHLCV, close_to, identical
from .meta import bulk


def fun_call(name, ser, fill, params=None):
    """function form with the data by keyword; -> (result, class, accessor, full parameters)"""
    m, cls, acc, args, fixed = spec.FUN[name]
    p = dict(spec.IND[cls].defaults(), **fixed)
    given = {a for a, _ in args}
    p.update({a: v for a, v in args if a not in spec.IND[cls].ins and a != "fillna"})
    if params:
        p.update({k: v for k, v in params.items() if k in given})
    kw = {a: p[a] for a in given if a in p}
    r = lib(getattr(mod(m), name), **{a: ser[a] for a, _ in args if a in spec.IND[cls].ins}, **kw, fillna=fill)
    return r, cls, acc, p


class Own(Check):
    """the caller writes into what it was given"""
    ID = "C22"
    RULE = ("an operation sequence (new object, ask a line, function form, bulk builder, the caller overwriting values of "
            "a result it received); every answer must equal that of a fresh object, the caller's inputs and all other "
            "results must stay as they were. Non-trivial: a result was overwritten and a line was asked afterwards.")
    ASSUMPTIONS = CLEAN

    def tasks(self, tier):
        n = 110 if tier == "quick" else 1500
        return [("mixed", 6 * n)] + [("one:" + i.cls, n) for i in spec.IND.values()]

    def generate(self, draw, task):
        inds = list(spec.IND.values()) if task == "mixed" else [spec.IND[task[4:]]]
        n = gen.length(draw, 1, 110, long_ok=False) if draw(st.integers(0, 3)) else draw(st.integers(1, 9))
        data, meta = gen.history(draw, n)
        ops = []
        slots = []
        res = 0
        if draw(st.integers(0, 2)) == 0:
            # the plain story: ask, overwrite what was given, ask again
            i = draw(st.sampled_from(inds))
            p = gen.params(draw, i, n, cap=n + 3)
            if draw(st.booleans()):
                p.update({k: draw(st.integers(max(1, n - 1), n + 3)) for k, _, kind in i.params if kind == "w"})
            l = draw(st.sampled_from(sorted(i.lines)))
            ops = [["new", i.cls, p, draw(st.booleans())], ["get", 0, l], ["scribble", 0, "all", draw(st.integers(0, n - 1))],
                   ["get", 0, l], ["get", 0, draw(st.sampled_from(sorted(i.lines)))]]
            return {"data": data, "meta": meta, "index": draw(st.sampled_from(gen.INDEX_KINDS)), "ops": ops}
        for _ in range(draw(st.integers(3, 9))):
            k = draw(st.sampled_from(["new", "get", "get", "scribble", "scribble", "fun", "bulk"]))
            if k == "bulk" and draw(st.integers(0, 4)):
                k = "get"
            if k == "get" and not slots:
                k = "new"
            if k == "scribble" and not res:
                k = "new" if not slots else "get"
            if k == "new":
                i = draw(st.sampled_from(inds))
                ops.append(["new", i.cls, gen.params(draw, i, n, cap=n + 3), draw(st.booleans())])
                slots.append(i.cls)
                k = "get"
                ops.append(["get", len(slots) - 1, draw(st.sampled_from(sorted(i.lines)))])
                res += 1
            elif k == "get":
                s = draw(st.integers(0, len(slots) - 1))
                ops.append(["get", s, draw(st.sampled_from(sorted(spec.IND[slots[s]].lines)))])
                res += 1
            elif k == "fun":
                names = sorted(f for f, x in spec.FUN.items() if x[1] in [i.cls for i in inds])
                if names:
                    ops.append(["fun", draw(st.sampled_from(names)), draw(st.booleans())])
                    res += 1
            elif k == "bulk":
                ops.append(["bulk", draw(st.booleans())])
                res += 1
            else:
                how = draw(st.sampled_from(["all", "one", "fillna", "scale", "values"]))
                ops.append(["scribble", draw(st.integers(0, res - 1)), how, draw(st.integers(0, n - 1))])
        return {"data": data, "meta": meta, "index": draw(st.sampled_from(gen.INDEX_KINDS)), "ops": ops}

    @staticmethod
    def scribble(s, how, i):
        if not isinstance(s, pd.Series):
            for c in s.columns:
                Own.scribble(s[c], how, i)
            if how == "all":
                s.iloc[:, :] = -7.75
            return
        if how == "all":
            s[:] = -7.75
        elif how == "one":
            if i < len(s):
                s.iloc[i] = 12345.5
        elif how == "fillna":
            s.fillna(-3.25, inplace=True)
        elif how == "scale":
            s *= 3.0
        else:
            a = s.values
            if a.flags.writeable:
                a[: i + 1] = 0.125

    def run(self, case, stats):
        note(stats, dict(case, fill="both"))
        ser = gen.frame(case["data"], case["index"])
        snap = {k: s.copy(deep=True) for k, s in ser.items()}
        slots, results, copies = [], [], []
        fresh = {}
        wrote = asked = 0
        for op in case["ops"]:
            stats.c["op:" + op[0]] += 1
            want = None
            if op[0] == "new":
                slots.append((make(spec.IND[op[1]], ser, op[2], op[3]), op[1], op[2], op[3]))
                continue
            if op[0] == "get":
                if op[1] >= len(slots):
                    continue
                o, cls, p, fill = slots[op[1]]
                if op[2] not in spec.IND[cls].lines:
                    continue
                got = line(o, op[2])
                want = (cls, p, fill, op[2])
            elif op[0] == "fun":
                got, cls, acc, p = fun_call(op[1], ser, op[2])
                want = (cls, p, op[2], acc)
            elif op[0] == "bulk":
                got = bulk(case["data"], {k: s for k, s in ser.items()}, op[1])
            else:
                if op[1] >= len(results):
                    continue
                self.scribble(results[op[1]], op[2], op[3])
                copies[op[1]] = results[op[1]].copy(deep=True)
                wrote += 1
            if op[0] != "scribble":
                asked += bool(wrote)
                results.append(got)
                copies.append(got.copy(deep=True))
            if want is not None:
                key = repr(want)
                if key not in fresh:
                    fresh[key] = line(make(spec.IND[want[0]], gen.frame(case["data"], case["index"]), want[1], want[2]),
                                      want[3]).copy(deep=True)
                w = identical(fresh[key], got)
                if w:
                    raise Violation("%r in %r: %s.%s%s fillna=%s has %s" % (
                        op, [o[:3] for o in case["ops"]], want[0], want[3], fmt(want[1]), want[2], w))
            for k in ser:
                w = identical(snap[k], ser[k])
                if w:
                    raise Violation("%r in %r: the caller's %s series has %s" % (op, [o[:3] for o in case["ops"]], k, w))
            for j, (g, c) in enumerate(zip(results, copies)):
                if isinstance(g, pd.Series):
                    w = identical(c, g)
                else:
                    w = None if list(g.columns) == list(c.columns) else "other columns"
                    for col in c.columns:
                        w = w or identical(c[col], g[col])
                if w:
                    raise Violation("%r in %r changed result %d: %s" % (op, [o[:3] for o in case["ops"]], j, w))
        return wrote > 0 and asked > 0


class Baton:
    """runs threads one at a time; the turn passes after a drawn number of trace events inside the library.
    A thread that does not get its turn within PATIENCE seconds (the library may hold a lock of its own) ends the
    controlled part of the run: from there on the threads run freely."""
    PATIENCE = 0.4

    def __init__(self, n, runs, opcodes, again=False):
        self.n, self.runs, self.opcodes = n, itertools.cycle(runs) if again else iter(runs), opcodes
        self.cond = threading.Condition()
        self.turn = 0
        self.alive = set(range(n))
        self.free = False
        self.left = next(self.runs, -1)
        self.switches = 0
        self.root = os.path.join(os.path.realpath(REPO), "ta") + os.sep
        self.files = {}

    def wait(self, t):
        with self.cond:
            if not self.cond.wait_for(lambda: self.free or self.turn == t, self.PATIENCE):
                self.free = True
                self.cond.notify_all()

    def step(self, t):
        """an event in thread t"""
        if self.free or self.left < 0:
            return
        self.left -= 1
        if self.left > 0:
            return
        with self.cond:
            others = sorted(x for x in self.alive if x != t)
            if not others:
                self.left = -1
                return
            self.left = next(self.runs, -1)
            self.turn = others[0] if others[0] > t else next((x for x in others if x > t), others[0])
            self.switches += 1
            self.cond.notify_all()
        self.wait(t)

    def done(self, t):
        with self.cond:
            self.alive.discard(t)
            if self.turn == t and self.alive:
                self.turn = min(self.alive)
            self.cond.notify_all()

    def tracer(self, t):
        def local(frame, event, arg):
            if event == "opcode" or (event == "line" and not self.opcodes):
                self.step(t)
            return local

        def glob(frame, event, arg):
            f = frame.f_code.co_filename
            ok = self.files.get(f)
            if ok is None:
                ok = self.files[f] = os.path.realpath(f).startswith(self.root)
            if not ok or self.free:
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local
        return glob


class Threads(Check):
    """concurrent schedules"""
    ID = "C23"
    RULE = ("2-4 threads, each with a list of jobs (indicator line, function, bulk builder) on shared or separate "
            "histories, under a schedule: either drawn (the turn passes from thread to thread after drawn numbers of "
            "executed lines or byte codes of the library, down to one) or the operating system's with a thread switch interval of 5 "
            "microseconds, several rounds; every result must equal, "
            "bit for bit, the one computed alone beforehand, and the shared inputs stay unchanged. Non-trivial: at "
            "least two threads, and a switch inside the library (drawn schedule) or four jobs (free schedule).")
    ASSUMPTIONS = CLEAN + ["drawn schedules switch between lines or byte codes of the library, not inside NumPy or pandas"]

    def tasks(self, tier):
        n = 40 if tier == "quick" else 900
        return [("one:" + i.cls, n) for i in spec.IND.values()] + [("mixed", 6 * n), ("bulk", n)]

    def generate(self, draw, task):
        n = gen.length(draw, 1, 90, long_ok=False)
        data, meta = gen.history(draw, n)
        if draw(st.booleans()):
            data2, _ = gen.history(draw, n)
        else:
            data2, _ = gen.history(draw, gen.length(draw, 1, 90, long_ok=False))
        sched = None
        if draw(st.integers(0, 9)) < 7:
            top = draw(st.sampled_from([2, 6, 25, 25, 120, 600]))
            sched = {"op": draw(st.integers(0, 3)) == 0, "again": draw(st.integers(0, 2)) > 0,
                     "runs": draw(st.lists(st.integers(1, top), min_size=1, max_size=draw(st.sampled_from([1, 2, 6, 24]))))}
        if task == "bulk":
            jobs = [[["bulk", draw(st.integers(0, 1)), draw(st.booleans())]] for _ in range(2)]
            return {"data": data, "data2": data2, "meta": meta, "jobs": jobs, "rounds": 1, "sched": sched}
        inds = list(spec.IND.values()) if task == "mixed" else [spec.IND[task[4:]]]
        jobs = []
        for _ in range(draw(st.integers(2, 4))):
            k = []
            for _ in range(draw(st.integers(1, 3))):
                i = draw(st.sampled_from(inds))
                k.append(["line", draw(st.integers(0, 1)), i.cls, gen.params(draw, i, n, cap=n + 3), draw(st.booleans())])
            jobs.append(k)
        return {"data": data, "data2": data2, "meta": meta, "jobs": jobs, "rounds": draw(st.integers(1, 3)) if sched is None else 1,
                "sched": sched}

    @staticmethod
    def do(job, sers):
        if job[0] == "bulk":
            df = bulk(None, {k: s.copy() for k, s in sers[job[1]].items()}, job[2])
            return {c: df[c] for c in df.columns}
        return outputs(spec.IND[job[2]], sers[job[1]], job[3], job[4])

    def run(self, case, stats):
        note(stats, dict(case, fill="both"))
        sers = [gen.frame(case["data"]), gen.frame(case["data2"])]
        snap = [{k: s.copy(deep=True) for k, s in x.items()} for x in sers]
        want = [[{k: s.copy(deep=True) for k, s in self.do(j, sers).items()} for j in js] for js in case["jobs"]]
        nt = len(case["jobs"])
        got = [[] for _ in range(nt)]
        err = []
        gate = threading.Barrier(nt)
        sched = case.get("sched")
        baton = Baton(nt, sched["runs"], sched["op"], sched.get("again", False)) if sched else None

        def body(t):
            try:
                gate.wait(30)
                if baton:
                    baton.wait(t)
                    sys.settrace(baton.tracer(t))
                for _ in range(case["rounds"]):
                    for j, job in enumerate(case["jobs"][t]):
                        got[t].append((j, self.do(job, sers)))
            except Violation as v:
                err.append(v)
            except Exception as e:  # noqa
                err.append(e)
            finally:
                if baton:
                    sys.settrace(None)
                    baton.done(t)

        old = sys.getswitchinterval()
        sys.setswitchinterval(5e-6 if sched is None else old)
        try:
            th = [threading.Thread(target=body, args=(t,)) for t in range(nt)]
            for t in th:
                t.start()
            for t in th:
                t.join()
        finally:
            sys.setswitchinterval(old)
        for e in err:
            if isinstance(e, Violation):
                raise Violation("with %d threads: %s" % (nt, e))
            raise e
        stats.c["threads:%d" % nt] += 1
        if baton:
            stats.c["drawn schedule" + (" cut short" if baton.free else "")] += 1
            stats.c["switches inside the library"] += baton.switches
        else:
            stats.c["free schedule"] += 1
        for t in range(nt):
            for j, out in got[t]:
                for a, s in out.items():
                    w = identical(want[t][j][a], s)
                    if w:
                        raise Violation("thread %d of %d, job %r, line %s: %s than alone" % (
                            t, nt, case["jobs"][t][j][:5], a, w))
        for x, y in zip(snap, sers):
            for k in x:
                w = identical(x[k], y[k])
                if w:
                    raise Violation("%d threads changed the caller's %s series: %s" % (nt, k, w))
        if baton:
            return nt >= 2 and baton.switches > 0
        return nt >= 2 and sum(len(j) for j in case["jobs"]) * case["rounds"] >= 4 or any(
            j[0][0] == "bulk" for j in case["jobs"])


LAYOUT = ["plain", "readonly", "column", "fcolumn", "backward", "skip", "sliced"]
NAMES = ["own", "none", "same", "int", "tuple", "clash", "drawn"]
WORDS = ["tr1", "tr2", "tr3", "high", "low", "close", "volume", "open", "rsi", "before", "prev", "index", "level_0", "value", "name",
         "a", "b", "c", "x", "0", "data", "", "up", "down", "shift", "diff", "mean", "max", "T", "values"]


class Storage(Check):
    ID = "C24"
    RULE = ("every indicator (all lines), the function form and the bulk builder on a drawn history whose series are "
            "stored in a drawn memory layout (read-only, column of a 2-D frame, reversed or strided view, slice of a longer series), under drawn "
            "series names, with parameters as numpy scalars and with pandas copy-on-write on or off; compared with the "
            "plain call. Non-trivial: at least one of these is not the plain one and the result has two different values.")
    ASSUMPTIONS = CLEAN

    def tasks(self, tier):
        n = 110 if tier == "quick" else 2500
        return [(i.cls, n) for i in spec.IND.values()] + [("bulk", n)]

    def generate(self, draw, task):
        n = gen.length(draw, 1, 160, long_ok=False)
        data, meta = gen.history(draw, n)
        c = {"ind": task, "data": data, "meta": meta, "fill": draw(st.booleans()),
             "layout": draw(st.sampled_from(LAYOUT)), "names": draw(st.sampled_from(NAMES)),
             "scalar": draw(st.sampled_from(["py", "i8", "i4", "f8", "i2", "i1", "u4", "u2", "u1"])), "cow": draw(st.booleans()),
             "index": draw(st.sampled_from(["range", "date", "str", "dup"]))}
        if c["names"] == "drawn":
            words = WORDS + 2 * gen.DICT_STR
            c["words"] = [draw(st.sampled_from(words)) for _ in OHLCV]
        if task != "bulk":
            c["params"] = gen.params(draw, spec.IND[task], n)
            c["fun"] = draw(st.sampled_from([None] + sorted(f for f, x in spec.FUN.items() if x[1] == task)))
        return c

    @staticmethod
    def stored(data, layout, names, index, words=None):
        plain = gen.frame(data, index)
        n = len(data["close"])
        idx = plain["close"].index
        out = {}
        if layout == "column":
            df = pd.DataFrame(np.column_stack([np.asarray(data[k], float) for k in OHLCV]), columns=OHLCV, index=idx)
            out = {k: df[k] for k in OHLCV}
        elif layout == "fcolumn":
            df = pd.DataFrame(np.asfortranarray(np.column_stack([np.asarray(data[k], float) for k in OHLCV])),
                              columns=OHLCV, index=idx)
            out = {k: df[k] for k in OHLCV}
        else:
            for k in OHLCV:
                a = np.asarray(data[k], float).copy()
                if layout == "readonly":
                    a.flags.writeable = False
                elif layout == "backward":
                    a = a[::-1].copy()[::-1]
                elif layout == "skip":
                    b = np.full(3 * n, -1.0); b[::3] = a; a = b[::3]
                if layout == "sliced":
                    b = np.concatenate([[5e5, 1e-3], a, [77.0]])
                    s = pd.Series(b).iloc[2:2 + n]
                    s.index = idx
                else:
                    s = pd.Series(a, index=idx)
                out[k] = s
        for j, k in enumerate(OHLCV):
            nm = {"own": k, "none": None, "same": "px", "int": j, "tuple": ("A", k),
                  "clash": ["tr1", "low", "close", "rsi", "high"][j],
                  "drawn": (words or OHLCV)[j]}[names]
            out[k] = out[k].rename(nm) if names != "own" else out[k]
        return plain, out

    @staticmethod
    def scalars(p, how):
        out = {}
        for k, v in p.items():
            if isinstance(v, bool) or v is None:
                out[k] = np.bool_(v) if isinstance(v, bool) and how != "py" else v
            elif isinstance(v, int):
                f = {"py": int, "f8": int}.get(how) or np.dtype(how).type
                if f is not int and not np.iinfo(f).min // 2 < v < np.iinfo(f).max // 2 and f is not np.int64:
                    f = np.int64
                out[k] = f(v)
            else:
                out[k] = np.float64(v) if how != "py" else v
        return out

    def run(self, case, stats):
        note(stats, case)
        fill = case["fill"]
        stats.c["layout:" + case["layout"]] += 1
        stats.c["names:" + case["names"]] += 1
        stats.c["scalars:" + case["scalar"]] += 1
        plain, other = self.stored(case["data"], case["layout"], case["names"], case["index"], case.get("words"))
        q = self.scalars(case.get("params", {}), case["scalar"])
        qf = np.bool_(fill) if case["scalar"] != "py" else fill
        res = []
        for ser, p, f, cow in ((plain, case.get("params", {}), fill, False), (other, q, qf, case["cow"])):
            with pd.option_context("mode.copy_on_write", bool(cow)):
                if case["ind"] == "bulk":
                    df = pd.DataFrame({k: s for k, s in ser.items()})
                    snap = df.copy(deep=True)
                    df = bulk(None, df, f)
                    r = {c: df[c] for c in df.columns}
                    for c in snap.columns:
                        w = identical(snap[c], df[c])
                        if w:
                            raise Violation("bulk builder: column %s has %s afterwards (layout %s, copy-on-write %s)" % (
                                c, w, case["layout"], cow))
                else:
                    r = dict(outputs(spec.IND[case["ind"]], ser, p, f))
                    if case["fun"]:
                        r["function " + case["fun"]] = fun_call(case["fun"], ser, f, p)[0]
            res.append(r)
        a, b = res
        if list(a) != list(b):
            raise Violation("other columns with layout %s" % case["layout"])
        vary = False
        for k in a:
            w = close_to(a[k], b[k])
            if w:
                raise Violation("%s.%s%s fillna=%s: with layout %s, names %s, scalars %s, copy-on-write %s: %s" % (
                    case["ind"], k, fmt(case.get("params", {})), fill, case["layout"], case.get("words", case["names"]), case["scalar"],
                    case["cow"], w))
            x = np.asarray(a[k], float)
            x = x[np.isfinite(x)]
            vary = vary or (len(x) > 1 and x.min() < x.max())
        odd = case["layout"] != "plain" or case["names"] != "own" or case["scalar"] != "py" or case["cow"]
        return bool(vary and odd)
