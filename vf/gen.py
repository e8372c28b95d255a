"""Generators: price/volume histories, parameters and row labels, all drawn through
Hypothesis.  A generated case is plain JSON (lists and numbers), so that replays and the
shrinker work without Hypothesis.

Histories are built on an integer lattice (one tick = 1) by a small program of regimes
and then multiplied by a unit; every history has low <= open, close <= high, positive
prices, volume >= 0.
"""
import ast
import collections
import glob
import hashlib
import json
import os

import numpy as np
from hypothesis import strategies as st

REPO = os.environ.get("VERIF_REPO", "/repo")

# ---------------------------------------------------------------- dictionary (fuzzing hints)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constants():
    """multiset of the numbers written in (or folded into) the code under test"""
    out = collections.Counter()

    def add(x):
        if isinstance(x, (int, float)) and not isinstance(x, bool) and np.isfinite(x):
            out[abs(float(x))] += 1

    for f in sorted(glob.glob(os.path.join(REPO, "ta", "*.py"))):
        try:
            src = open(f).read()
            tree = ast.parse(src)
            todo = [compile(src, "x", "exec")]
        except (SyntaxError, OSError):
            continue
        for nd in ast.walk(tree):
            if isinstance(nd, ast.Constant):
                add(nd.value)
        while todo:
            c = todo.pop()
            for k in c.co_consts:
                if hasattr(k, "co_consts"):
                    todo.append(k)
                elif isinstance(k, (tuple, frozenset)):
                    for x in k:
                        add(x)
                else:
                    add(k)
    return out


def dictionary():
    """numbers that occur in the code under test more often than in the reference snapshot of the library:
    only a hint to the generator where to look, as in any dictionary-driven fuzzer"""
    f = os.path.join(VERIF, "vf", "constants.json")
    base = {float(k): v for k, v in json.load(open(f)).items()} if os.path.exists(f) else {}
    return sorted(x for x, k in constants().items() if k > base.get(x, 0))


DICT = dictionary()
DICT_INT = sorted({int(x) for x in DICT if x == int(x) and 2 <= x <= 1300})
DICT_LONG = sorted({int(x) for x in DICT if x == int(x) and 1300 < x <= 5200})
DICT_MAG = sorted({float(x) for x in DICT if 1e-12 <= x <= 1e12})



def strings():
    """multiset of the short texts written in the code under test, documentation aside"""
    out = collections.Counter()
    for f in sorted(glob.glob(os.path.join(REPO, "ta", "*.py"))):
        try:
            tree = ast.parse(open(f).read())
        except (SyntaxError, OSError):
            continue
        doc = {id(nd.value) for nd in ast.walk(tree) if isinstance(nd, ast.Expr)}
        for nd in ast.walk(tree):
            if isinstance(nd, ast.Constant) and isinstance(nd.value, str) and id(nd) not in doc and 0 < len(nd.value) <= 40:
                out[nd.value] += 1
    return out


def texts():
    f = os.path.join(VERIF, "vf", "strings.json")
    base = json.load(open(f)) if os.path.exists(f) else {}
    return sorted(x for x, k in strings().items() if k > base.get(x, 0))


DICT_STR = texts()

PROFILE = "normal"      # "wild": the second campaign, longer and more extreme

# ---------------------------------------------------------------- histories
REGIMES = ["walk", "flat", "up", "down", "zigzag", "ties", "bigwalk", "spike", "doji", "gap", "pump", "crash", "micro",
           "repeat"]
VREG = ["ints", "zeros", "const", "mixzero", "falling", "rising", "huge", "ties", "spiky"]
UNITS = {"grid16": 1 / 16, "grid256": 1 / 256, "int": 1.0, "cents": 0.01, "milli": 0.001, "sat": 1e-8, "tiny": 1e-12,
         "big": 1e4, "huge": 1e9, "odd": 0.7310585786300049}


def _bytes(draw, n):
    if n <= 96:
        b = draw(st.binary(min_size=n, max_size=n))
        return np.frombuffer(b, dtype=np.uint8).astype(np.int64)
    seed = draw(st.binary(min_size=24, max_size=24))
    out = b""
    k = 0
    while len(out) < n:
        out += hashlib.sha256(seed + k.to_bytes(4, "little")).digest()
        k += 1
    return np.frombuffer(out[:n], dtype=np.uint8).astype(np.int64)


def _path(n, segs, start, by):
    """integer OHLC path"""
    o = np.empty(n, np.int64); h = o.copy(); l = o.copy(); c = o.copy()
    P = start
    t = 0
    levels = [start, start + 1, start + 3, max(1, start - 2)]
    for reg, ln, amp in segs:
        for _ in range(ln):
            if t >= n:
                break
            b0, b1, b2, b3 = by[4 * t: 4 * t + 4]
            b0, b1, b2, b3 = int(b0), int(b1), int(b2), int(b3)
            op = P
            hi_x, lo_x = b1 % (amp + 1), b2 % (amp + 1)
            if reg == "walk":
                cl = P + (b0 % (2 * amp + 1)) - amp
                op = P + (b3 % 3) - 1 if b3 > 128 else P
            elif reg == "bigwalk":
                k = max(1, P // 12)
                cl = P + ((b0 - 128) * k) // 64
                hi_x = (b1 * k) // 128; lo_x = (b2 * k) // 128
            elif reg == "flat":
                cl = P; hi_x = lo_x = 0
            elif reg == "micro":
                cl = P + (b0 % 3) - 1; hi_x = b1 % 2; lo_x = b2 % 2
            elif reg == "up":
                cl = P + 1 + b0 % (amp + 1)
            elif reg == "down":
                cl = P - 1 - b0 % (amp + 1)
            elif reg == "zigzag":
                cl = P + (1 if t % 2 else -1) * (amp + b0 % 2)
            elif reg == "ties":
                cl = levels[b0 % 4]; op = levels[b3 % 4]
                hi_x = b1 % 2; lo_x = b2 % 2
            elif reg == "spike":
                cl = P
                if b0 < 40:
                    hi_x = P * (1 + b1 % 20)
                elif b0 < 80:
                    lo_x = (P * (b2 % 99)) // 100
                elif b0 < 110:
                    cl = P + P * (b1 % 4)
                elif b0 < 140:
                    cl = P - (P * (b1 % 80)) // 100
            elif reg == "doji":
                cl = P + (b0 % (2 * amp + 1)) - amp
                op = cl; hi_x = lo_x = 0
            elif reg == "gap":
                op = P + ((b3 % (2 * amp + 1)) - amp) * 4
                cl = op + (b0 % 5) - 2
            elif reg == "pump":
                cl = P + max(1, (P * (b0 % 40)) // 100)
            elif reg == "crash":
                cl = P - max(1, (P * (b0 % 40)) // 100)
            else:  # repeat: same bar shape as four bars ago
                if t >= 4:
                    op, cl, hi_x, lo_x = o[t - 4], c[t - 4], h[t - 4] - max(o[t - 4], c[t - 4]), \
                        min(o[t - 4], c[t - 4]) - l[t - 4]
                else:
                    cl = P + b0 % 3
            op = min(max(1, int(op)), 1 << 34); cl = min(max(1, int(cl)), 1 << 34)
            o[t] = op; c[t] = cl
            h[t] = max(op, cl) + int(hi_x)
            l[t] = max(1, min(op, cl) - int(lo_x))
            P = cl
            t += 1
        levels = [P, P + 1, P + 3, max(1, P - 2)]
    return o, h, l, c


def _vol(n, segs, by, base):
    v = np.empty(n, np.int64)
    t = 0
    cur = base
    for reg, ln in segs:
        for _ in range(ln):
            if t >= n:
                break
            b0, b1 = int(by[2 * t]), int(by[2 * t + 1])
            if reg == "ints":
                x = base * (1 + b0) // 16 + b1
            elif reg == "zeros":
                x = 0
            elif reg == "const":
                x = cur
            elif reg == "mixzero":
                x = 0 if b0 < 110 else base + b1
            elif reg == "falling":
                x = max(0, cur - 1 - b0 % 7)
            elif reg == "rising":
                x = cur + 1 + b0 % 7
            elif reg == "huge":
                x = base * (1 + b0) * 1000003
            elif reg == "ties":
                x = [base, base + 1, base, 2 * base][b0 % 4]
            else:
                x = base if b0 > 24 else base * (2 + b1)
            v[t] = x
            cur = x if x else base
            t += 1
    return v


def _split(draw, n, names, kmax):
    k = draw(st.integers(1, kmax)) if n > 3 else 1
    regs = [draw(st.sampled_from(names)) for _ in range(k)]
    if k == 1:
        return [(regs[0], n)]
    cuts = sorted(draw(st.lists(st.integers(0, n), min_size=k - 1, max_size=k - 1)))
    lens = np.diff([0] + cuts + [n])
    return [(r, int(x)) for r, x in zip(regs, lens)]


def length(draw, nmin=1, nmax=420, long_ok=True):
    k = draw(st.integers(0, 99))
    if PROFILE == "wild":
        if k < 15:
            n = draw(st.integers(1, 60))
        elif k < 40:
            n = draw(st.integers(61, 220))
        elif k < 70 or not long_ok:
            n = draw(st.integers(221, 420))
        elif k < 80 and (DICT_INT or DICT_LONG):
            n = draw(st.sampled_from(DICT_INT + DICT_LONG)) * draw(st.sampled_from([1, 1, 2])) + draw(st.integers(-2, 60))
        elif k < 92:
            n = draw(st.integers(421, 1100))
        elif k < 98:
            n = draw(st.integers(1101, 2300))
        else:
            n = draw(st.integers(2301, 5300))
        return max(nmin, n)
    if DICT_LONG and long_ok and draw(st.integers(0, 69)) == 69:
        n = draw(st.sampled_from(DICT_LONG)) + draw(st.integers(-2, 40))
    elif k < 10:
        n = draw(st.integers(1, 6))
    elif k < 45:
        n = draw(st.integers(7, 40))
    elif k < 78:
        n = draw(st.integers(41, 110))
    elif k < 93:
        n = draw(st.integers(111, 220))
    elif k < 96 and DICT_INT:
        d = draw(st.sampled_from(DICT_INT))
        if not long_ok:
            d = min(d, 380)
        n = d + draw(st.integers(-2, 40))
    elif not long_ok:
        n = draw(st.integers(111, 220)) if k < 98 else draw(st.integers(221, 330))
    elif k == 99:
        r = draw(st.integers(0, 39))
        if r < 16:
            n = draw(st.integers(421, 1300))
        elif r == 39:
            n = draw(st.integers(1300, 3000))
        elif r == 38 and DICT_LONG:
            n = draw(st.sampled_from(DICT_LONG)) + draw(st.integers(-2, 40))
        else:
            n = draw(st.integers(221, nmax))
    else:
        n = draw(st.integers(221, nmax))
    return max(nmin, n)


def history(draw, n, unit=None, exact=None, vol_positive=False):
    """-> dict open/high/low/close/volume lists (floats) + meta"""
    segs = _split(draw, n, REGIMES, 4 if PROFILE == "normal" else draw(st.sampled_from([1, 1, 2, 4, 9])))
    amp = draw(st.sampled_from([1, 2, 3, 5, 8, 16, 40]))
    if unit is None:
        names = list(UNITS) if exact is None else (["grid16", "grid256", "int"] if exact else list(UNITS))
        unit = draw(st.sampled_from(["grid16", "grid16", "grid16"] + names))
        if DICT_MAG and exact is None and draw(st.integers(0, 11 if PROFILE == "normal" else 4)) == 0:
            unit = "dict"
    start = draw(st.sampled_from([3, 20, 100, 160, 500, 1600, 1600, 3000, 8000, 50000, 400000]))
    if exact is None and draw(st.integers(0, 60)) == 60:
        start = 2000000000      # relative moves of a billionth
    o, h, l, c = _path(n, [(r, x, amp) for r, x in segs], start, _bytes(draw, 4 * n))
    if unit == "dict":
        u = draw(st.sampled_from(DICT_MAG)) / draw(st.sampled_from([start, start, 1]))
    else:
        u = UNITS[unit]
    vs = _split(draw, n, VREG, 3)
    base = draw(st.sampled_from([1, 5, 100, 1000, 1000, 40000, 2000000]))
    v = _vol(n, vs, _bytes(draw, 2 * n), base)
    if vol_positive:
        v = np.maximum(v, 1)
    vu = draw(st.sampled_from([1.0, 1.0, 1.0, 1.0, 0.5, 0.01, 1e-6, 1.37e5]))
    if DICT_MAG and exact is None and draw(st.integers(0, 15 if PROFILE == "normal" else 4)) == 0:
        vu = draw(st.sampled_from(DICT_MAG)) / draw(st.sampled_from([base, base, 1]))
    if exact:
        vu = 1.0
    d = {k: (x.astype(np.float64) * u).tolist() for k, x in (("open", o), ("high", h), ("low", l), ("close", c))}
    d["volume"] = (v.astype(np.float64) * vu).tolist()
    meta = {"regimes": [r for r, x in segs if x], "vol": [r for r, x in vs if x], "unit": unit}
    return d, meta


# ---------------------------------------------------------------- parameters
def window(draw, n, default, cap=None):
    k = draw(st.integers(0, 99))
    if PROFILE == "wild" and k < 20:
        k = 50
    if k < 40:
        w = draw(st.integers(1, 8))
    elif k < 62:
        w = draw(st.integers(1, n + 3))
    elif k < 84 and default:
        w = default
    elif k < 90 and DICT_INT:
        w = max(1, draw(st.sampled_from(DICT_INT)) + draw(st.integers(-1, 2)))
    elif k < 96:
        w = draw(st.integers(5, 40))
    else:
        w = draw(st.sampled_from([n, n + 1, max(1, n - 1), max(1, n // 2), 2 * n]))
    if cap:
        w = min(w, cap)
    return w


def params(draw, ind, n, cap=None):
    mode = draw(st.integers(0, 9))
    p = {}
    for name, dflt, kind in ind.params:
        if kind == "w":
            if mode == 0 and dflt:
                p[name] = dflt
            else:
                p[name] = window(draw, n, dflt, cap)
        elif kind == "pow":
            p[name] = dflt if mode < 2 else draw(st.integers(1, 40))
        elif kind == "dev":
            p[name] = dflt if mode < 3 else draw(st.one_of(
                st.sampled_from([1, 2, 3, 0.5, 1.5, 2.5, 4, 10]), st.integers(1, 96).map(lambda k: k / 8)))
        elif kind == "weight":
            p[name] = dflt if mode < 4 else draw(st.one_of(
                st.sampled_from([1.0, 2.0, 4.0, 0.5, 3.0, 7.5, 1, 2]), st.integers(1, 96).map(lambda k: k / 8)))
            if name != "weight1" and mode == 9:
                p[name] = draw(st.sampled_from([0, 0.0, p[name]]))
        elif kind == "const":
            p[name] = dflt if mode < 5 else draw(st.one_of(
                st.sampled_from([0.015, 0.01, 0.02, 1.0, 0.5]), st.integers(1, 300).map(lambda k: k / 64)))
        elif kind == "step":
            p[name] = dflt if mode < 5 else draw(st.one_of(
                st.sampled_from([0.01, 0.02, 0.03, 0.05, 0.1, 0.25, 0.5]), st.integers(1, 60).map(lambda k: k / 64)))
        elif kind == "maxstep":
            s = p["step"]
            p[name] = max(s, dflt) if mode < 5 else max(s, draw(st.one_of(
                st.sampled_from([0.02, 0.05, 0.1, 0.2, 0.3, 0.5]), st.integers(1, 64).map(lambda k: k / 64))))
        elif kind == "bool":
            p[name] = draw(st.booleans()) if mode else dflt
        elif kind == "offset":
            k = draw(st.integers(0, 9))
            p[name] = 0 if k < 5 else (draw(st.integers(1, 8)) if k < 8 else
                                       (draw(st.integers(-6, -1)) if k < 9 else draw(st.integers(1, n + 2))))
        elif kind == "smooth":
            p[name] = None if draw(st.integers(0, 2)) == 0 else window(draw, n, 14, cap)
        else:
            raise ValueError(kind)
    # equal / reversed window pairs deserve more weight than chance gives them
    ws = [x[0] for x in ind.params if x[2] == "w"]
    if len(ws) > 1 and draw(st.integers(0, 7)) == 0:
        p[ws[1]] = p[ws[0]]
    return p


# ---------------------------------------------------------------- row labels
INDEX_KINDS = ["range", "shifted", "reversed", "shuffled", "float", "floatneg", "date", "datetz", "str", "dup", "bool2",
               "period", "multi", "datedup", "named", "delta", "cat", "descdate", "mixed", "interval", "nan", "nat"]


def make_index(kind, n):
    import pandas as pd
    if kind == "range":
        return pd.RangeIndex(n)
    if kind == "shifted":
        return pd.RangeIndex(5, 5 + n)
    if kind == "reversed":
        return pd.Index(np.arange(n)[::-1].copy())
    if kind == "shuffled":
        return pd.Index([(i ^ 1) if (i ^ 1) < n else i for i in range(n)])
    if kind == "float":
        return pd.Index(np.arange(n) * 0.5)
    if kind == "floatneg":
        return pd.Index(np.arange(n) * 1.0 - n / 2)
    if kind == "date":
        return pd.date_range("2020-01-01", periods=n, freq="D")
    if kind == "datetz":
        return pd.date_range("2020-03-28 22:00", periods=n, freq="h", tz="Europe/Madrid")
    if kind == "str":
        return pd.Index(["r%d" % (i * 37 % (n + 1)) for i in range(n)])
    if kind == "dup":
        return pd.Index([i // 3 for i in range(n)])
    if kind == "bool2":
        return pd.Index([i % 2 for i in range(n)])
    if kind == "period":
        return pd.period_range("2001-01", periods=n, freq="M")
    if kind == "multi":
        return pd.MultiIndex.from_arrays([["A"] * n, list(range(n))], names=["sym", "t"])
    if kind == "datedup":
        return pd.DatetimeIndex([pd.Timestamp("2020-01-01") + pd.Timedelta(days=i // 2) for i in range(n)], name="when")
    if kind == "named":
        return pd.Index(list(range(n, 2 * n)), name="bar")
    if kind == "delta":
        return pd.to_timedelta(np.arange(n) * 90, unit="s")
    if kind == "cat":
        return pd.CategoricalIndex(["k%d" % (i % 5) for i in range(n)], categories=["k%d" % i for i in (3, 1, 4, 0, 2)])
    if kind == "descdate":
        return pd.date_range("2020-01-01", periods=n, freq="D")[::-1]
    if kind == "mixed":
        return pd.Index([i if i % 2 else "r%d" % i for i in range(n)], dtype=object)
    if kind == "nan":
        return pd.Index([float("nan") if i % 7 == 3 else i / 2 for i in range(n)], dtype="float64")
    if kind == "nat":
        return pd.DatetimeIndex([None if i % 5 == 2 else "2021-%02d-%02d" % (i // 28 % 12 + 1, i % 28 + 1) for i in range(n)])
    if kind == "interval":
        return pd.IntervalIndex.from_breaks(np.arange(n + 1))
    raise ValueError(kind)


INT_TYPES = ["int64", "int64", "int32", "uint64", "uint32", "int16", "uint16", "uint8", "int8"]


def int_type(data, cols, want):
    """the widest type not above `want` in this list that holds every value of the columns"""
    big = max((max(data[k], default=0) for k in cols), default=0)
    for t in [want, "uint16", "int32", "uint32"]:
        if big <= np.iinfo(t).max:
            return t
    return "int64"


def frame(data, kind="range", ints=(), itype="int64"):
    import pandas as pd
    idx = make_index(kind, len(data["close"]))
    out = {}
    for k, x in data.items():
        a = np.asarray(x, dtype=np.float64)
        out[k] = pd.Series(a.astype(int_type(data, [k], itype)) if k in ints else a, index=idx, name=k)
    return out
