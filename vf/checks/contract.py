"""C10 purity over call histories, C11 functions = objects, C12/C20 bulk builder, C16 clean-up."""
import inspect
import os
import pickle
import traceback

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import core, gen, spec
from ..core import Violation, lib
from .common import CLEAN, Check, base_case, fmt, line, make, mod, note
from .meta import bulk, same_index

OHLCV = ["open", "high", "low", "close", "volume"]


def identical(a, b):
    """None, or what differs between two results that must be the same series"""
    if type(a) is not type(b):
        return "a %s instead of a %s" % (type(b).__name__, type(a).__name__)
    if a.dtype != b.dtype:
        return "type %s instead of %s" % (b.dtype, a.dtype)
    if a.name != b.name:
        return "name %r instead of %r" % (b.name, a.name)
    if not same_index(a.index, b.index):
        return "other row labels"
    x, y = np.asarray(a), np.asarray(b)
    if x.dtype.kind == "f":
        ok = (x == y) | (np.isnan(x) & np.isnan(y))
    else:
        ok = x == y
    bad = np.flatnonzero(~ok)
    if len(bad):
        return "bar %d is %r instead of %r" % (bad[0], y[bad[0]], x[bad[0]])
    return None


def close_to(a, b):
    """like identical, but values may differ by rounding in the last places (relative to the column)"""
    w = identical(a, b)
    if w is None or not w.startswith("bar "):
        return w
    x, y = np.asarray(a, float), np.asarray(b, float)
    f = np.abs(x[np.isfinite(x)])
    tol = 1e-13 * (f.max() if len(f) else 0)
    with np.errstate(all="ignore"):
        ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= tol)
    return None if ok.all() else w


# ------------------------------------------------------------------ C10
def forked(f):
    """run f in a forked child, so that nothing it does can reach this process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            core._LINES.clear(), core._ARCS.clear()
            try:
                out = ("ok", f())
            except Violation as v:
                out = ("violation", str(v))
            except BaseException:  # noqa
                out = ("error", traceback.format_exc())
            with os.fdopen(w, "wb") as fh:
                pickle.dump(out + (core._LINES, core._ARCS), fh, protocol=4)
        except BaseException:  # noqa
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        b = fh.read()
    os.waitpid(pid, 0)
    kind, val, ls, arcs = pickle.loads(b)
    core._LINES.update(ls)
    core._ARCS.update(arcs)
    if kind == "violation":
        raise Violation(val)
    if kind == "error":
        raise RuntimeError(val)
    return val


class Pure(Check):
    ID = "C10"
    RULE = ("an operation sequence on two data sets (new object, ask a line, function form, bulk builder on a copy, the "
            "caller replacing values of its own series), run in a forked child; every answer must equal, bit for bit, "
            "that of a fresh object asked only for that line in a process that did nothing else; inputs and all earlier "
            "answers are compared with snapshots after every step. Non-trivial: at least two answers, preceded by other "
            "operations.")
    ASSUMPTIONS = CLEAN + ["in-place changes by the caller invalidate the objects built from that data set before"]

    def tasks(self, tier):
        n = 150 if tier == "quick" else 4000
        return [("mixed", 3 * n)] + [(f, 2 * n) for f in ("momentum", "trend", "volatility", "volume", "others")] + \
            [("one:" + i.cls, max(10, n // 5)) for i in spec.IND.values()] + \
            [("pair:" + i.cls, max(10, n // 4)) for i in spec.IND.values()]

    def generate(self, draw, task):
        inds = list(spec.IND.values())
        if task.startswith("one:"):
            inds = [spec.IND[task[4:]]]
        elif task.startswith("pair:"):
            return self.pair(draw, spec.IND[task[5:]])
        elif task != "mixed":
            inds = [i for i in inds if i.mod == task]
        n = gen.length(draw, 1, 130, long_ok=False) if draw(st.integers(0, 4)) else draw(st.integers(1, 8))
        data, meta = gen.history(draw, n)
        k = draw(st.integers(0, 4))
        if k == 0:
            m = draw(st.integers(1, 80))
            data2, _ = gen.history(draw, m)
        elif k == 1:
            data2, _ = gen.history(draw, n)
        elif k == 2:
            data2 = {c: list(x) for c, x in data.items()}
        else:
            # a near twin: same ends, one or a few interior bars differ
            data2 = {c: list(x) for c, x in data.items()}
            other, _ = gen.history(draw, n)
            for i in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4)):
                for c in OHLCV:
                    data2[c][i] = other[c][i]
        pool = []
        for _ in range(draw(st.integers(1, 3))):
            i = draw(st.sampled_from(inds))
            pool.append([i.cls, gen.params(draw, i, n)])
        ops, slots = [], []
        edited = 0
        for _ in range(draw(st.integers(2, 9))):
            kind = draw(st.sampled_from(["new", "get", "get", "get", "get", "fun", "edit", "bulk", "again"]))
            if kind == "bulk" and draw(st.integers(0, 3)):
                kind = "get"
            if kind in ("get", "again") and not slots:
                kind = "new"
            if kind == "new":
                if draw(st.integers(0, 3)) == 0:
                    i = draw(st.sampled_from(inds))
                    cls, p = i.cls, gen.params(draw, i, n)
                else:
                    cls, p = draw(st.sampled_from(pool))
                    if draw(st.integers(0, 2)) == 0:
                        # same class, one parameter changed
                        q = gen.params(draw, spec.IND[cls], n)
                        if q:
                            kx = draw(st.sampled_from(sorted(q)))
                            p = dict(p, **{kx: q[kx]})
                            if "max_step" in p:
                                p["max_step"] = max(p["max_step"], p["step"])
                slots.append((len(slots), cls))
                ops.append(["new", draw(st.integers(0, 1)), cls, p, draw(st.booleans())])
                sl, cl = slots[-1]
                ops.append(["get", sl, draw(st.sampled_from(sorted(spec.IND[cl].lines)))])
            elif kind == "get":
                sl, cl = draw(st.sampled_from(slots))
                ops.append(["get", sl, draw(st.sampled_from(sorted(spec.IND[cl].lines)))])
            elif kind == "again":
                prev = [o for o in ops if o[0] == "get"]
                ops.append(list(draw(st.sampled_from(prev))) if prev else ["get", slots[0][0], sorted(
                    spec.IND[slots[0][1]].lines)[0]])
            elif kind == "fun":
                names = [f for f, x in spec.FUN.items() if x[1] in [i.cls for i in inds]]
                if names:
                    ops.append(["fun", draw(st.integers(0, 1)), draw(st.sampled_from(sorted(names))),
                                draw(st.booleans())])
            elif kind == "bulk":
                ops.append(["bulk", draw(st.integers(0, 1))])
            elif edited < 2:
                edited += 1
                ops.append(["edit", draw(st.integers(0, 1)), draw(st.integers(0, n - 1))])
        return {"data": data, "data2": data2, "meta": meta, "index": draw(st.sampled_from(gen.INDEX_KINDS)),
                "ops": ops}

    @staticmethod
    def pair(draw, ind):
        """two or three objects of one class that differ in exactly one respect, asked for all lines in drawn orders"""
        n = gen.length(draw, 2, 130, long_ok=False) if draw(st.integers(0, 4)) else draw(st.integers(2, 8))
        data, meta = gen.history(draw, n)
        p = gen.params(draw, ind, n)
        data2 = {c: list(x) for c, x in data.items()}
        respects = ["fill"] + ["data"] * 2 + sorted(p) * 2
        ops, slots = [], 0
        first = [draw(st.integers(0, 1)), ind.cls, p, draw(st.booleans())]
        seq = [first]
        for _ in range(draw(st.integers(1, 2))):
            b = list(seq[draw(st.integers(0, len(seq) - 1))])
            r = draw(st.sampled_from(respects))
            if r == "fill":
                b[3] = not b[3]
            elif r == "data":
                b[0] = 1 - b[0]
            else:
                q = gen.params(draw, ind, n)
                if q[r] == b[2][r] and isinstance(q[r], int) and not isinstance(q[r], bool):
                    q[r] += draw(st.integers(1, 3))
                b[2] = dict(b[2], **{r: q[r]})
                if "max_step" in b[2]:
                    b[2]["max_step"] = max(b[2]["max_step"], b[2]["step"])
            seq.append(b)
        if any(x[0] != first[0] for x in seq):
            other, _ = gen.history(draw, n)
            for i in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4)):
                for c in OHLCV:
                    data2[c][i] = other[c][i]
        lines = sorted(ind.lines)
        late = draw(st.booleans())
        if late:
            ops += [["new"] + x for x in seq]
        for k, x in enumerate(seq):
            if not late:
                ops.append(["new"] + x)
            for a in draw(st.permutations(lines)):
                ops.append(["get", k, a])
        if draw(st.booleans()):
            ops += [["get", 0, a] for a in lines]
        return {"data": data, "data2": data2, "meta": meta, "index": draw(st.sampled_from(gen.INDEX_KINDS)), "ops": ops}

    @staticmethod
    def script(case):
        """static reading of the sequence: per answer, the fresh computation it must equal"""
        def bars(d):
            return min(len(x) for x in d.values())
        cur = [case["data"], case["data2"]]
        slots = []
        out = []
        for op in case["ops"]:
            if op[0] == "new":
                slots.append((op[1], op[2], op[3], op[4], cur[op[1]]))
                out.append(None)
            elif op[0] == "get":
                if op[1] >= len(slots):
                    out.append(None)
                    continue
                ds, cls, p, fill, snap = slots[op[1]]
                # after an in-place edit older objects are nobody's concern
                out.append((cls, p, fill, op[2], snap) if snap is cur[ds] and op[2] in spec.IND[cls].lines else None)
            elif op[0] == "fun":
                _, cls, acc, args, fixed = spec.FUN[op[2]]
                p = dict(spec.IND[cls].defaults(), **fixed)
                p.update({a: v for a, v in args if a not in spec.IND[cls].ins and a != "fillna"})
                out.append((cls, p, op[3], acc, cur[op[1]]))
            elif op[0] == "edit":
                d = cur[op[1]]
                if op[2] < bars(d):
                    d = {c: list(x) for c, x in d.items()}
                    f = 1.25
                    for c in ("open", "high", "low", "close"):
                        d[c][op[2]] *= f
                    d["volume"][op[2]] += 3.0
                    cur[op[1]] = d
                out.append(None)
            else:
                out.append(None)
        return out

    def play(self, case):
        sers = [gen.frame(case["data"], case["index"]), gen.frame(case["data2"], case["index"])]
        snap = [{k: s.copy(deep=True) for k, s in x.items()} for x in sers]
        slots, answers, kept = [], [], []
        plan = self.script(case)
        for op, want in zip(case["ops"], plan):
            got = None
            if op[0] == "new":
                slots.append(make(spec.IND[op[2]], sers[op[1]], op[3], op[4]))
            elif op[0] == "get":
                if want is not None:
                    got = line(slots[op[1]], op[2])
            elif op[0] == "fun":
                m, cls, acc, args, fixed = spec.FUN[op[2]]
                got = lib(getattr(mod(m), op[2]), **{a: sers[op[1]][a] for a, _ in args if a in spec.IND[cls].ins},
                          fillna=op[3])
            elif op[0] == "bulk":
                df = pd.DataFrame({k: s.copy() for k, s in sers[op[1]].items()})
                import ta
                lib(ta.add_all_ta_features, df, *OHLCV, fillna=False)
            elif op[0] == "edit":
                d, i = sers[op[1]], op[2]
                if i < len(d["close"]):
                    for c in ("open", "high", "low", "close"):
                        d[c].iloc[i] = d[c].iloc[i] * 1.25
                    d["volume"].iloc[i] = d["volume"].iloc[i] + 3.0
                    snap[op[1]] = {k: s.copy(deep=True) for k, s in d.items()}
                    kept = []        # earlier answers may be views of what the caller changed
            for j in (0, 1):
                for k in sers[j]:
                    w = identical(snap[j][k], sers[j][k])
                    if w:
                        raise Violation("after %r the caller's %s series has %s" % (op, k, w))
            for o, g, c in kept:
                w = identical(c, g)
                if w:
                    raise Violation("the series returned by %r was changed by %r: %s" % (o, op, w))
            if got is not None:
                if not isinstance(got, pd.Series):
                    raise Violation("%r returned a %s" % (op, type(got).__name__))
                kept.append((op, got, got.copy(deep=True)))
            answers.append(None if got is None else got.copy(deep=True))
        return answers

    def run(self, case, stats):
        note(stats, dict(case, fill="both"))
        got = forked(lambda: self.play(case))
        plan = self.script(case)
        done = {}
        k = 0
        for i, (op, want) in enumerate(zip(case["ops"], plan)):
            stats.c["op:" + op[0]] += 1
            if want is None:
                continue
            cls, p, fill, acc, data = want
            key = (cls, repr(p), fill, acc, id(data))
            if key not in done:
                done[key] = forked(lambda: line(make(spec.IND[cls], gen.frame(data, case["index"]), p, fill), acc))
            w = identical(done[key], got[i])
            if w:
                raise Violation("step %d %r of %r: %s.%s%s fillna=%s has %s (fresh object in a fresh process first)" % (
                    i, op, [o[:4] for o in case["ops"]], cls, acc, fmt(p), fill, w))
            k += 1
        return k >= 2


# ------------------------------------------------------------------ C11
class Functions(Check):
    ID = "C11"
    RULE = ("each of the 80 functions (and each class) with a drawn argument list: a prefix by position, the rest by "
            "keyword or omitted, on a drawn history under drawn row labels; must equal the object built with every "
            "argument spelled out. Non-trivial: at least one non-default argument reached the call and the result has "
            "two different finite values.")
    ASSUMPTIONS = CLEAN + ["argument order and defaults are the documented ones (vf/spec.py)"]

    def tasks(self, tier):
        n = 100 if tier == "quick" else 2000
        return ([("fun:" + f, n) for f in sorted(spec.FUN)] + [("cls:" + c, n) for c in spec.IND]
                + [(t, 20 * n) for t in self.suspects()])

    @staticmethod
    def suspects():
        """arguments whose default in the signature is not the documented one are left out more often (a hint for
        the generator; the verdict stays with what the call returns)"""
        out = []
        for kind, name, m, args in ([("fun", f, v[0], v[3]) for f, v in sorted(spec.FUN.items())]
                                    + [("cls", c, i.mod, sorted(i.defaults().items())) for c, i in spec.IND.items()]):
            try:
                sig = inspect.signature(getattr(mod(m), name)).parameters
            except Exception:
                continue
            for a, d in args:
                if d is not None and a in sig and repr(sig[a].default) != repr(d):
                    out.append("%s:%s:%s" % (kind, name, a))
        return out[:12]

    def generate(self, draw, task):
        kind, name = task.split(":")[:2]
        focus = task.split(":")[2:]
        if kind == "fun":
            _, cls, acc, args, _ = spec.FUN[name]
        else:
            cls = name
            acc = None
            args = None
        ind = spec.IND[cls]
        n = max(2, gen.length(draw, 1, 260, long_ok=False))
        p = gen.params(draw, ind, n, cap=max(4, n // 2) if draw(st.integers(0, 3)) else None)
        order = ind.order if args is None else [a for a, _ in args]
        npos = draw(st.integers(0, len(order)))
        opt = [a for a in order if a not in ind.ins]
        if focus:
            npos, omit = min(npos, order.index(focus[0])), focus
            n = max(n, draw(st.integers(20, 120)))
        elif opt and draw(st.booleans()):
            # one argument (or all of them) left at its default, on a history long enough for it to matter
            omit = [draw(st.sampled_from(opt))] if draw(st.integers(0, 3)) else opt
            npos = min([npos] + [order.index(a) for a in omit])
            n = max(n, draw(st.integers(20, 120)))
        else:
            omit = draw(st.lists(st.sampled_from(order), unique=True))
        data, meta = gen.history(draw, n)
        return {"task": kind, "name": name, "data": data, "meta": meta, "params": p, "fill": draw(st.booleans()),
                "index": draw(st.sampled_from(gen.INDEX_KINDS)), "npos": npos, "omit": omit,
                "gaps": self.gaps(draw, n, ind.ins)}

    @staticmethod
    def gaps(draw, n, ins):
        """missing cells (one input of five has some): the two forms have to agree on those too"""
        if draw(st.integers(0, 4)):
            return []
        cols = st.sampled_from([list(ins)] * 2 + [[c] for c in ins])
        return draw(st.lists(st.tuples(cols, st.integers(0, n - 1), st.integers(1, 6)), min_size=1, max_size=4))

    def run(self, case, stats):
        note(stats, case)
        if case["task"] == "fun":
            m, cls, acc, args, fixed = spec.FUN[case["name"]]
            ind = spec.IND[cls]
        else:
            ind = spec.IND[case["name"]]
            m, cls, acc, fixed = ind.mod, ind.cls, None, {}
            dflt = ind.defaults()
            args = [(a, None if a in ind.ins else (False if a == "fillna" else dflt[a])) for a in ind.order]
        ser = gen.frame(case["data"], case["index"])
        for cols, at, k in case.get("gaps", ()):
            for c in cols:
                ser[c].iloc[at:at + k] = np.nan
        full = dict(ind.defaults(), **fixed)
        fill = False
        pos, kw = [], {}
        eff = 0
        for i, (a, default) in enumerate(args):
            if a in ind.ins:
                v = ser[a]
            elif a == "fillna":
                v = case["fill"]
            else:
                v = case["params"][a]
            optional = not (a in ind.ins or (default is None and a == "window"))
            if i < case["npos"]:
                pos.append(v)
            elif a in case["omit"] and optional:
                v = default
            else:
                kw[a] = v
            if a == "fillna":
                fill = v
                eff += bool(v)
            elif a not in ind.ins:
                full[a] = v
                eff += v != default
        call = "%s(%s)" % (case["name"], ", ".join(
            [("<%s>" % x.name if isinstance(x, pd.Series) else repr(x)) for x in pos]
            + ["%s=%s" % (k, ("<%s>" % v.name if isinstance(v, pd.Series) else repr(v))) for k, v in kw.items()]))
        if "max_step" in full and full["max_step"] < full["step"]:
            return False
        if case.get("gaps"):
            stats.c["missing cells"] += 1
            try:
                ref = getattr(mod(m), cls)(**{k: ser[k] for k in ind.ins}, **full, fillna=fill)
                for a in ([acc] if case["task"] == "fun" else ind.lines):
                    getattr(ref, a)()
            except Exception:
                return False        # such input is not served at all
        ref = make(ind, ser, full, fill)
        if case["task"] == "fun":
            pairs = [(acc, line(ref, acc), lib(getattr(mod(m), case["name"]), *pos, **kw))]
        else:
            o = lib(getattr(mod(m), cls), *pos, **kw)
            pairs = [(a, line(ref, a), line(o, a)) for a in ind.lines]
        for a, want, got in pairs:
            w = identical(want, got)
            if w:
                raise Violation("%s.%s: %s; expected %s%s fillna=%s line %s" % (m, call, w, cls, fmt(full), fill, a))
        if case["task"] == "fun":
            import ta
            if getattr(ta, case["name"], None) is not getattr(mod(m), case["name"]) and hasattr(ta, case["name"]):
                raise Violation("ta.%s is not ta.%s.%s" % (case["name"], m, case["name"]))
        x = np.asarray(pairs[0][1])
        x = x[np.isfinite(x)]
        stats.c["positional arguments"] += len(pos)
        stats.c["non-default arguments"] += eff
        return eff > 0 and len(np.unique(x)) > 1


# ------------------------------------------------------------------ bulk builder
FAM = {"volume": ("add_volume_ta", ["high", "low", "close", "volume"], True),
       "volatility": ("add_volatility_ta", ["high", "low", "close"], True),
       "trend": ("add_trend_ta", ["high", "low", "close"], True),
       "momentum": ("add_momentum_ta", ["high", "low", "close", "volume"], True),
       "others": ("add_others_ta", ["close"], False)}


def call_family(fam, df, cols, fill, prefix, vec, how):
    import ta
    if fam == "all":
        f, need, hasvec = ta.add_all_ta_features, OHLCV, True
    else:
        nm, need, hasvec = FAM[fam]
        f = getattr(ta, nm)
    names = [cols[k] for k in need]
    kw = {"fillna": fill, "colprefix": prefix}
    if hasvec:
        kw["vectorized"] = vec
    if how == "default":
        if not fill:
            kw.pop("fillna")
        if not prefix:
            kw.pop("colprefix")
        if not vec:
            kw.pop("vectorized", None)
    if how == "pos":
        a = [fill, prefix] + ([vec] if hasvec else [])
        return lib(f, df, *names, *a)
    if how == "kw":
        return lib(f, df=df, **{k: cols[k] for k in need}, **kw)
    return lib(f, df, *names, **kw)


def expected_columns(fam, vec):
    return spec.bulk_columns(vec and True, spec.FAMILY_ORDER if fam == "all" else [fam])


NAMES = ["open", "high", "low", "close", "volume", "Open", "High", "Low", "Close", "Volume_(BTC)", "o", "h", "l", "c",
         "v", "adj close", "x1", "x2", "price", "qty", "Weighted_Price"]


def draw_cols(draw):
    k = draw(st.integers(0, 5))
    if k == 0:
        return dict(zip(OHLCV, OHLCV))
    if k == 5:
        # labels that are numbers
        return dict(zip(OHLCV, draw(st.permutations(draw(st.sampled_from([[0, 1, 2, 3, 4], [1, 2, 3, 4, 5, 6],
                                                                          [-1, 0, 1, 7, 30, 2020], [0.5, 1.5, 2.0, 3.0, 7.0]]))))))
    if k == 1:
        # the standard names, attached to other columns
        perm = draw(st.permutations(OHLCV))
        return dict(zip(OHLCV, perm))
    perm = draw(st.permutations(NAMES + gen.DICT_STR if k == 2 else NAMES))
    return dict(zip(OHLCV, perm[:5]))


PREFIX = ["{}", "{0}_", "{{x}}", "%s", "%(a)s%", "a b ", "\\1_", "_", "0", "A.", "trend_", "others_", "été-", "close"]


def draw_prefix(draw, usual):
    k = draw(st.integers(0, 9))
    return draw(st.sampled_from(usual if k < 7 else PREFIX + 3 * gen.DICT_STR))


EXTRA = ["text", "int", "bool", "cat", "date", "nan", "float32", "obj", "objint", "objbool", "textnum", "Int64", "wide",
         "delta", "tz", "zero", "inf"]


def extra_column(kind, n, idx):
    if kind == "text":
        return pd.Series(["t%d" % (i % 7) for i in range(n)], index=idx)
    if kind == "int":
        return pd.Series(np.arange(n, dtype=np.int32) - 3, index=idx)
    if kind == "bool":
        return pd.Series([i % 3 == 0 for i in range(n)], index=idx)
    if kind == "cat":
        return pd.Series(pd.Categorical(["ab"[i % 2] for i in range(n)]), index=idx)
    if kind == "date":
        return pd.Series(pd.date_range("2021-01-01", periods=n, freq="h"), index=idx)
    if kind == "nan":
        return pd.Series([np.nan if i % 4 else float(i) for i in range(n)], index=idx)
    if kind == "objint":
        return pd.Series(list(range(n)), index=idx, dtype=object)
    if kind == "objbool":
        return pd.Series([i % 2 == 0 for i in range(n)], index=idx, dtype=object)
    if kind == "textnum":
        return pd.Series(["%d.5" % i for i in range(n)], index=idx)
    if kind == "Int64":
        return pd.Series(pd.array([None if i % 4 == 1 else i for i in range(n)], dtype="Int64"), index=idx)
    if kind == "wide":
        return pd.Series([2 ** 62 + i for i in range(n)], index=idx, dtype="int64")
    if kind == "delta":
        return pd.Series(pd.to_timedelta(np.arange(n), unit="h"), index=idx)
    if kind == "tz":
        return pd.Series(pd.date_range("2021-03-27 12:00", periods=n, freq="h", tz="Europe/Madrid"), index=idx)
    if kind == "zero":
        return pd.Series(np.zeros(n), index=idx)
    if kind == "inf":
        return pd.Series([[np.inf, -np.inf, np.nan, 1.0, -0.0][i % 5] for i in range(n)], index=idx)
    if kind == "float32":
        return pd.Series((np.arange(n) * 0.1).astype(np.float32), index=idx)
    return pd.Series([None if i % 5 == 0 else (i, "x") for i in range(n)], index=idx, dtype=object)


def build_frame(case):
    idx = gen.make_index(case["index"], len(case["data"]["close"]))
    n = len(idx)
    ser = gen.frame(case["data"], case["index"], case.get("ints", ()))
    cols = case["cols"]
    df = pd.DataFrame(index=idx)
    for what in case["layout"]:
        if what in OHLCV:
            df[cols[what]] = ser[what]
        elif what.startswith("decoy:"):
            df[what[6:]] = pd.Series((np.arange(n) % 11 + 1.0) * 3.5, index=idx)
        else:
            df[case["extra_names"][what]] = extra_column(what, n, idx)
    return df


def draw_layout(draw, cols):
    extra = draw(st.lists(st.sampled_from(EXTRA), unique=True, max_size=3))
    free = [x for x in NAMES if x not in cols.values()]
    decoys = draw(st.lists(st.sampled_from(free), unique=True, max_size=4))
    lay = draw(st.permutations(OHLCV + extra + ["decoy:" + d for d in decoys]))
    return list(lay), {e: "extra_" + e for e in extra}


class Bulk(Check):
    ID = "C12"
    RULE = ("a frame with drawn column names (standard, permuted among themselves, or other), decoy and extra columns, row "
            "labels, prefix, fill and vectorized mode, stale columns of an earlier run, and one of the six builders; the set of added columns must be the "
            "documented one and every column equal to the indicator object it names. Non-trivial: more than 20 bars and a "
            "price path that is not constant.")
    ASSUMPTIONS = CLEAN + ["the documented columns and their standard parameters are the table in vf/spec.py"]

    def tasks(self, tier):
        n = 160 if tier == "quick" else 4000
        return [(f, n) for f in list(FAM) + ["all"]]

    def generate(self, draw, task):
        n = gen.length(draw, 1, 300)
        data, meta = gen.history(draw, n)
        cols = draw_cols(draw)
        lay, ex = draw_layout(draw, cols)
        return {"fam": task, "data": data, "meta": meta, "cols": cols, "layout": lay, "extra_names": ex,
                "index": draw(st.sampled_from(gen.INDEX_KINDS)), "fill": draw(st.booleans()),
                "vec": draw(st.booleans()), "prefix": draw_prefix(draw, ["", "", "p_", "x"]),
                "numpy_flags": draw(st.integers(0, 7)) == 0,
                "how": draw(st.sampled_from(["kw", "pos", "default", "mixed"])),
                "stale": draw(st.sampled_from([None, None, None, "all", "half", "front"]))}

    def run(self, case, stats):
        note(stats, case)
        df = build_frame(case)
        if case.get("stale"):
            # the frame already holds columns of these names, from a run on older prices
            stats.c["stale columns:" + case["stale"]] += 1
            for j, (c, _, _, _) in enumerate(expected_columns(case["fam"], case["vec"])):
                c = case["prefix"] + c
                if c not in df.columns and (case["stale"] == "all" or j % 2):
                    x = np.where(np.arange(len(df)) % 3, 1.5 + j, np.nan)
                    df.insert(0 if case["stale"] == "front" else len(df.columns), c, x)
        before = list(df.columns)
        cols = case["cols"]
        ser = {k: df[cols[k]].copy() for k in OHLCV}
        flag = np.bool_ if case.get("numpy_flags") else bool
        out = call_family(case["fam"], df, cols, flag(case["fill"]), case["prefix"], flag(case["vec"]), case["how"])
        want = expected_columns(case["fam"], case["vec"])
        names = [case["prefix"] + c for c, _, _, _ in want]
        added = [c for c in out.columns if c not in before or c in names]
        if sorted(added, key=str) != sorted(names):
            raise Violation("%s(vectorized=%s): added columns differ from the documented ones: missing %s, unexpected %s"
                            % (case["fam"], case["vec"], sorted(set(names) - set(added))[:5],
                               sorted(set(added) - set(names), key=str)[:5]))
        objs = {}
        for (c, cls, p, acc), nm in zip(want, names):
            k = (cls, repr(p))
            if k not in objs:
                objs[k] = make(spec.IND[cls], ser, p, case["fill"])
            a, b = line(objs[k], acc), out[nm]
            w = close_to(a.rename(nm), b)
            if w:
                raise Violation("%s builder, columns %s, fillna=%s: column %s has %s (expected %s.%s%s)" % (
                    case["fam"], case["cols"], case["fill"], nm, w, cls, acc, fmt(p)))
            stats.c["columns compared"] += 1
        c = case["data"]["close"]
        return len(c) > 20 and len(set(c)) > 1


class BulkIntact(Check):
    ID = "C20"
    RULE = ("a frame as for C12 and a drawn sequence of builder calls with prefixes (families, all-in-one, repeats); after "
            "each call every column that was there before is bitwise unchanged (values, type, order, labels) and new "
            "ones stand behind them; the all-in-one call equals the families, repeating changes nothing, and each "
            "prefix's columns equal those of a separate run. Non-trivial: two or more calls.")
    ASSUMPTIONS = CLEAN

    def tasks(self, tier):
        n = 120 if tier == "quick" else 3000
        return [("sequence", 4 * n), ("families", n), ("repeat", n)]

    def generate(self, draw, task):
        n = gen.length(draw, 1, 120, long_ok=False)
        ints = draw(st.integers(0, 4)) == 0
        data, meta = gen.history(draw, n, **({"unit": "int", "exact": True} if ints else {}))
        cols = draw_cols(draw)
        lay, ex = draw_layout(draw, cols)
        fams = list(FAM)
        calls = []
        if task == "sequence":
            for _ in range(draw(st.integers(2, 4))):
                calls.append([draw(st.sampled_from(fams + ["all", "others"])), draw(st.booleans()),
                              draw_prefix(draw, ["", "a_", "b_", "a_", "volume_"]), draw(st.booleans()),
                              draw(st.sampled_from(["kw", "pos", "default", "mixed"]))])
        elif task == "families":
            f, pre, v = draw(st.booleans()), draw(st.sampled_from(["", "a_"])), draw(st.booleans())
            calls = [["all", f, pre, v, "kw"]]
        else:
            c = [draw(st.sampled_from(fams + ["all"])), draw(st.booleans()), draw(st.sampled_from(["", "a_"])),
                 draw(st.booleans()), "kw"]
            calls = [c, list(c)]
        return {"task": task, "data": data, "meta": meta, "cols": cols, "layout": lay, "extra_names": ex,
                "index": draw(st.sampled_from(gen.INDEX_KINDS)), "ops": calls,
                "twice": [d for d in lay if d not in OHLCV and draw(st.integers(0, 5)) == 0],
                "ints": OHLCV if ints else []}

    @staticmethod
    def snapshot(df):
        return df.copy(deep=True)

    @staticmethod
    def unchanged(old, df, what, skip=()):
        if not same_index(old.index, df.index):
            raise Violation("%s: the rows changed" % what)
        if list(df.columns[:len(old.columns)]) != list(old.columns):
            raise Violation("%s: existing columns moved: %s -> %s" % (what, list(old.columns)[-4:],
                                                                      list(df.columns[:len(old.columns)])[-4:]))
        if old.index.names != df.index.names:
            raise Violation("%s: the index is named %r instead of %r" % (what, list(df.index.names), list(old.index.names)))
        for j, c in enumerate(old.columns):
            if c in skip:
                continue
            a, b = old.iloc[:, j], df.iloc[:, j]
            if a.dtype != b.dtype:
                raise Violation("%s: column %r changed type from %s to %s" % (what, c, a.dtype, b.dtype))
            if not a.equals(b):
                raise Violation("%s: column %r changed" % (what, c))

    def run(self, case, stats):
        note(stats, case)
        df = build_frame(case)
        for d in case.get("twice", []):
            # a second column under the name of an extra one
            k = list(df.columns).index(d[6:] if d.startswith("decoy:") else case["extra_names"][d])
            df.insert(len(df.columns), df.columns[k], df.iloc[:, k], allow_duplicates=True)
        twice = len(df.columns) - len(set(df.columns))
        base = self.snapshot(df)
        cols = case["cols"]
        cur = df
        calls = case["ops"]
        for i, (fam, fill, prefix, vec, how) in enumerate(calls):
            what = "call %d of %s" % (i + 1, [c[:4] for c in calls])
            old = self.snapshot(cur)
            cur = call_family(fam, cur, cols, fill, prefix, vec, how)
            if not isinstance(cur, pd.DataFrame):
                raise Violation("%s returned a %s" % (what, type(cur).__name__))
            names = [prefix + c for c, _, _, _ in expected_columns(fam, vec)]
            self.unchanged(old, cur, what, skip=set(names))
            new = [c for c in cur.columns if c not in set(old.columns)]
            if set(new) != set(names) - set(old.columns):
                raise Violation("%s: added %s" % (what, sorted(set(new) ^ (set(names) - set(old.columns)), key=str)[:4]))
            if cur.columns.duplicated().sum() != twice:
                raise Violation("%s: duplicate columns" % what)
            self.unchanged(base, cur, what)
            # the same call on a fresh copy of the original frame gives the same columns
            alone = call_family(fam, base.copy(), cols, fill, prefix, vec, "kw")
            for c in names:
                w = identical(alone[c], cur[c])
                if w:
                    raise Violation("%s: column %s has %s when other calls came before" % (what, c, w))
            stats.c["calls"] += 1
        # the caller's own frame (whether or not it is the returned one) keeps its columns
        self.unchanged(base, df, "after %s, the caller's frame" % [c[:3] for c in calls])
        if case["task"] == "families":
            fam, fill, prefix, vec, how = calls[0]
            seq = base.copy()
            for f in FAM:
                seq = call_family(f, seq, cols, fill, prefix, vec, "kw")
            if sorted(map(str, seq.columns)) != sorted(map(str, cur.columns)):
                raise Violation("all-in-one and the five families add different columns")
            for c in dict.fromkeys(cur.columns):
                if not cur[c].equals(seq[c]):
                    raise Violation("column %s differs between the all-in-one call and the families" % c)
        return len(calls) > 1 or case["task"] == "families"


# ------------------------------------------------------------------ C16
LIMIT = 8.218407461554972e307     # exp(709)
CELLS = {
    "float64": [1.0, 0.0, -0.0, float("nan"), float("inf"), float("-inf"), 1e307, 8.2e307, 8.3e307, 1.7e308, -1.7e308,
                5e-324, -5e-324, 1e-300, -1.0, 0.1, 123456.789, 2.0, 3.5, 1e15],
    "float32": [1.0, 0.0, -0.0, float("nan"), float("inf"), 0.1, -2.5, 3e38, 1e-45, float("-inf")],
    "int64": [0, 1, -1, 7, 10 ** 12, 2 ** 53 - 1, -5],
    "bigint": [0, 2 ** 53 + 1, 2 ** 62 + 3, -(2 ** 61) - 1, 5],
    "int32": [0, 3, -3, 2 ** 31 - 1],
    "uint8": [0, 1, 255],
    "bool": [True, False],
    "str": ["", "0", "a", "nan", None],
    "date": ["2020-01-01", None, "1970-01-01"],
    "object": [0, "x", None, 0.0, 5],
    "cat": ["a", "b", None],
    "timedelta": [0, 1, 10 ** 6, None],
    "Int64": [0, 1, -4, 2 ** 40],
    "Float64": [0.0, 1.5, -2.0, float("inf"), float("-inf"), 1e308, 1e-320],
    "boolean": [True, False, None],
    "string": ["", "0", "b", None],
    "float16": [1.0, 0.0, float("nan"), float("inf"), 6e-8, 65504.0, -2.0],
    "uint64": [0, 1, 2 ** 64 - 1, 2 ** 63, 9],
    "sparse": [1.0, 0.0, float("nan"), float("inf"), -3.0],
    "tz": ["2020-03-29 01:30", None, "1970-01-01"],
    "period": ["2020-01", None, "1999-12"],
}
NUMERIC = ("float64", "float32", "int64", "bigint", "int32", "uint8", "Int64", "Float64", "float16", "uint64", "sparse")


def dtype_series(kind, vals):
    if kind == "date":
        return pd.Series(pd.to_datetime(pd.Series(vals, dtype=object)))
    if kind == "cat":
        return pd.Series(pd.Categorical(vals, categories=["a", "b"]))
    if kind == "timedelta":
        return pd.Series(pd.to_timedelta(vals, unit="s"))
    if kind in ("str", "object"):
        return pd.Series(vals, dtype=object)
    if kind == "tz":
        return pd.Series(pd.to_datetime(pd.Series(vals, dtype=object), utc=True, format="mixed"))
    if kind == "period":
        return pd.Series(pd.PeriodIndex([pd.NaT if v is None else pd.Period(v, "M") for v in vals], freq="M"))
    if kind == "sparse":
        return pd.Series(pd.arrays.SparseArray(np.asarray(vals, float)))
    if kind == "float16":
        with np.errstate(all="ignore"):
            return pd.Series(np.asarray(vals, float).astype("float16"))
    if kind == "bigint":
        return pd.Series(vals, dtype="int64")
    return pd.Series(vals, dtype=kind)


class DropNa(Check):
    ID = "C16"
    RULE = ("a frame of 0-30 rows and 1-6 (sometimes up to 24) columns of drawn types (floats, integers, booleans, text, dates, categories, "
            "objects) whose cells come from a pool of ordinary and extreme values, under drawn row labels; the result "
            "must be exactly the usable rows of the independent cell-by-cell oracle. Non-trivial: some rows kept and "
            "some dropped.")
    ASSUMPTIONS = ["between 8.0e307 and 8.4e307 the exact limit is not judged"]

    def tasks(self, tier):
        n = 1500 if tier == "quick" else 40000
        return [("mixed", n), ("numeric", n), ("clean", n // 2), ("wide", n // 4)]

    def generate(self, draw, task):
        n = draw(st.integers(0, 30)) if task != "wide" else draw(st.integers(50, 400))
        kinds = list(CELLS)
        if task == "numeric":
            kinds = ["float64", "float64", "int64", "float32", "int32", "bigint", "Int64", "Float64", "uint64", "float16"]
        k = draw(st.integers(1, 6)) if draw(st.integers(0, 11)) else draw(st.integers(7, 24))
        if k > 6:
            n = min(n, 12)
        cols = []
        shared = draw(st.integers(0, 7)) == 0       # several columns may carry one name
        dirt = draw(st.sampled_from([0, 1, 3, 10, 40])) if task != "clean" else 0
        for j in range(k):
            kind = draw(st.sampled_from(kinds))
            pool = CELLS[kind]
            good = [i for i, x in enumerate(pool) if usable(kind, x)]
            by = gen._bytes(draw, 2 * n)
            vals = [pool[int(by[2 * i + 1]) % len(pool)] if int(by[2 * i]) < 256 * dirt / 100
                    else pool[good[int(by[2 * i + 1]) % len(good)]] for i in range(n)]
            name = draw(st.sampled_from(["a", "b", "c", "d", "e", "close", "x y", 0, 1, 2, "@nan", "@none", "@tuple", "@time"]))
            while not shared and name in [c[0] for c in cols]:
                name = "%s_" % str(name).strip("@")
            cols.append([name, kind, [repr(v) if isinstance(v, float) else v for v in vals]])
        return {"cols": cols, "n": n, "index": draw(st.sampled_from(gen.INDEX_KINDS)),
                "titles": draw(st.sampled_from([None, None, None, "field", "levels"]))}

    @staticmethod
    def names(case):
        ns = [{"@nan": float("nan"), "@none": None, "@tuple": ("px", 1), "@time": pd.Timestamp("2021-03-04")}.get(c[0], c[0])
              for c in case["cols"]]
        if case.get("titles") == "levels":
            return pd.MultiIndex.from_tuples([(j % 2, str(n)) for j, n in enumerate(ns)], names=["group", None])
        a = np.empty(len(ns), object)
        a[:] = ns
        out = pd.Index(a, dtype=object, tupleize_cols=False)
        return out.rename(case["titles"]) if case.get("titles") else out

    def run(self, case, stats):
        import ta
        n = case["n"]
        idx = gen.make_index(case["index"], n)
        parts = []
        keep = np.ones(n, bool)
        judged = np.ones(n, bool)
        for name, kind, vals in case["cols"]:
            vals = [float(v) if kind in NUMERIC and isinstance(v, str) else v for v in vals][:n]
            s = dtype_series(kind, vals)
            s.index = idx
            parts.append(s)
            for i, v in enumerate(vals):
                if isinstance(v, float) and 8.0e307 < v < 8.4e307:
                    judged[i] = False
                if not usable(kind, v):
                    keep[i] = False
            stats.c["column:" + kind] += 1
        if not judged.all():
            judged |= ~keep
        df = pd.DataFrame(dict(enumerate(parts)), index=idx)
        df.columns = self.names(case)
        if not df.columns.is_unique:
            stats.c["frames with a shared column name"] += 1
        before = df.copy(deep=True)
        out = lib(ta.utils.dropna, df)
        what = "dropna on columns %s with %s labels" % ([(c[0], c[1]) for c in case["cols"]], case["index"])
        if not same_index(df.index, before.index) or not same_index(df.columns, before.columns) or \
                (df.dtypes != before.dtypes).any() or not df.equals(before):
            raise Violation(what + " changed its argument")
        if not same_index(out.columns, before.columns) or list(out.columns.names) != list(before.columns.names) or \
                list(out.index.names) != list(before.index.names):
            raise Violation("%s: columns %s" % (what, list(out.columns)))
        if not judged.all():
            return False
        want = before[keep]
        if not same_index(want.index, out.index):
            raise Violation("%s: kept rows %s, usable are %s of %d" % (what, list(out.index)[:8],
                                                                        list(np.flatnonzero(keep))[:8], n))
        for k, c in enumerate(want.columns):
            a, b = want.iloc[:, k], out.iloc[:, k]
            for i in range(len(a)):
                x, y = a.iloc[i], b.iloc[i]
                same = int(x) == int(y) if isinstance(x, np.integer) and y == y else x == y
                if not same:
                    raise Violation("%s: surviving cell %r of column %r became %r" % (what, x, c, y))
        again = lib(ta.utils.dropna, out)
        if not same_index(again.index, out.index) or not again.equals(out):
            raise Violation(what + ": cleaning the cleaned frame changed it")
        stats.c["rows kept"] += int(keep.sum())
        stats.c["rows dropped"] += int((~keep).sum())
        return bool(keep.any() and not keep.all())


def usable(kind, v):
    if v is None:
        return False
    if kind in NUMERIC:
        if v != v or v == 0 or v == float("inf"):
            return False
        return not v > LIMIT
    return True
