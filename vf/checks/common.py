import importlib

import numpy as np

from .. import gen, iv, spec
from ..core import Violation, lib
from hypothesis import strategies as st

_ta = {}


def mod(name):
    if name not in _ta:
        _ta[name] = importlib.import_module("ta." + name)
    return _ta[name]


def make(ind, ser, p, fill):
    return lib(getattr(mod(ind.mod), ind.cls), **{k: ser[k] for k in ind.ins}, **p, fillna=fill)


def line(obj, acc):
    return lib(getattr(obj, acc))


def outputs(ind, ser, p, fill, accs=None):
    o = make(ind, ser, p, fill)
    return {a: line(o, a) for a in (accs or ind.lines)}


def arr(s):
    """values as float array; anything that is not a one-dimensional numeric series is a violation"""
    try:
        a = np.asarray(s, dtype=np.float64)
    except Exception as e:
        raise Violation("result is not numeric: %r (%s)" % (type(s), e))
    return a


def S(data):
    return {k: iv.S(np.asarray(v, dtype=np.float64)) for k, v in data.items()}


def floors(ind, data, refs):
    """Rounding in the scale of the inputs.  Where the formula as documented happens to come out exactly (a return of
    exactly zero, an average of equal prices) another evaluation of it may round, so no line is compared more sharply
    than a few units in the last place of the quantities it is made of."""
    hi = [np.maximum.accumulate(np.nan_to_num(np.abs(np.asarray(data[k].v if isinstance(data[k], iv.S) else data[k],
                                                                 dtype=np.float64)), nan=0.0, posinf=0.0, neginf=0.0))
          for k in ("high", "low", "close") if k in data]
    price = np.maximum.reduce(hi) if hi else 0.0
    vol = 1.0
    if "volume" in data:
        v = data["volume"]
        vol = np.cumsum(np.nan_to_num(np.abs(np.asarray(v.v if isinstance(v, iv.S) else v, dtype=np.float64)), nan=0.0,
                                      posinf=0.0, neginf=0.0))
    for a, x in refs.items():
        dim = ind.lines[a].dim
        if dim is None or dim[1] < 0:
            continue
        if dim == (0, 0):
            size = 100.0
        else:
            size = (price if dim[0] else 1.0) ** dim[0] * (vol if dim[1] else 1.0) ** dim[1]
        if np.ndim(size) and len(size) != len(x):
            continue
        with np.errstate(all="ignore"):
            e = np.where(np.isfinite(x.v) & np.isfinite(x.e),
                         x.e + 4 * iv.U * size * (1 + np.arange(len(x)) / 8), x.e)
        refs[a] = iv.S(x.v, np.where(np.isnan(e), np.inf, e))
    return refs


def ref_lines(ind, data, p, fill, filled=True, floor=True):
    r = _ref_lines(ind, data, p, fill, filled)
    return floors(ind, data, dict(r)) if floor else r


def _ref_lines(ind, data, p, fill, filled):
    d = S(data) if not isinstance(next(iter(data.values())), iv.S) else data
    r = ind.ref(d, p, fill)
    if fill and filled:
        out = {}
        for a, x in r.items():
            if ind.cls == "VolumePriceTrendIndicator" and p.get("dropnans"):
                out[a] = x
                continue
            out[a] = iv.fill(x, ind.lines[a].fill, d.get("close"))
        return out
    return r


def fmt(p):
    return "(" + ", ".join("%s=%r" % kv for kv in p.items()) + ")"


def mismatch(ind, acc, p, fill, got, ref, i, extra=""):
    return "%s.%s%s fillna=%s bar %d of %d: got %r, expected %r (+-%.3g)%s" % (
        ind.cls, acc, fmt(p), fill, i, len(ref), float(got[i]) if i < len(got) else None, float(ref.v[i]),
        iv.K * float(ref.e[i]), extra)


def base_case(draw, ind, nmin=1, nmax=420, cap=None, long_ok=True, **hk):
    n = gen.length(draw, nmin, nmax, long_ok)
    p = gen.params(draw, ind, n, cap)
    data, meta = gen.history(draw, n, **hk)
    return {"ind": ind.cls, "params": p, "data": data, "meta": meta}


def nbucket(n):
    for b in (1, 2, 5, 20, 50, 120, 250, 500, 1000):
        if n <= b:
            return "n<=%d" % b
    return "n>1000"


def note(stats, case):
    n = len(case["data"]["close"])
    stats.c[nbucket(n)] += 1
    m = case.get("meta") or {}
    for r in set(m.get("regimes", [])):
        stats.c["regime:" + r] += 1
    for r in set(m.get("vol", [])):
        stats.c["volume:" + r] += 1
    if "unit" in m:
        stats.c["unit:" + m["unit"]] += 1
    if case.get("fill", "both") != "both":
        stats.c["fill on" if case["fill"] else "fill off"] += 1


class Check:
    ID = None
    RULE = ""
    ASSUMPTIONS = []

    def tasks(self, tier):
        raise NotImplementedError

    def generate(self, draw, task):
        raise NotImplementedError

    def run(self, case, stats):
        raise NotImplementedError


CLEAN = ["histories are clean: positive finite prices with low <= open, close <= high, finite volume >= 0",
         "reference models in vf/refs.py state the documented formulas; cells that float64 rounding alone can decide "
         "(noise over noise after cancellation) are counted as undetermined and not judged"]
