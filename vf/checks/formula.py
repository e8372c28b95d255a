"""C01-C06: every line against its reference model."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, iv, spec
from ..core import Violation
from .common import CLEAN, Check, arr, base_case, fmt, line, lib, make, mismatch, note, ref_lines


class Formula(Check):
    RULE = ("Hypothesis draws a history (length 1-420, a few of 1000-1700, and literals from the code, 14 price and 9 volume regimes, 10 "
            "units), parameters and the fill switch; all lines of the indicator are compared cell by cell with an "
            "error-tracked reference. Non-trivial: at least one cell beyond the warm-up is decided to better than 0.1% "
            "and is neither missing nor a fill value.")
    ASSUMPTIONS = CLEAN

    def __init__(self, pid, quick, thorough):
        self.ID = pid
        self.q, self.t = quick, thorough
        self.inds = [i for i in spec.IND.values() if i.prop == pid]

    def tasks(self, tier):
        n = self.q if tier == "quick" else self.t
        return [(i.cls, n) for i in self.inds] + [("long:" + i.cls, 4 if tier == "quick" else 100) for i in self.inds]

    def generate(self, draw, task):
        if task.startswith("long:"):
            ind = spec.IND[task[5:]]
            n = draw(st.integers(1000, 1700))
            data, meta = gen.history(draw, n)
            p = gen.params(draw, ind, n, **({"cap": 60} if draw(st.integers(0, 2)) else {}))
            return {"ind": ind.cls, "params": p, "data": data, "meta": meta, "fill": "both"}
        ind = spec.IND[task]
        c = base_case(draw, ind)
        c["fill"] = "both"
        return c

    def run(self, case, stats):
        ind = spec.IND[case["ind"]]
        p, data = case["params"], case["data"]
        note(stats, case)
        ser = gen.frame(data)
        nontrivial = False
        for fill in ([False, True] if case["fill"] == "both" else [case["fill"]]):
            nontrivial |= self.one(ind, p, fill, data, ser, stats)
        return nontrivial

    def one(self, ind, p, fill, data, ser, stats):
        obj = make(ind, ser, p, fill)
        refs = ref_lines(ind, data, p, fill)
        nontrivial = False
        for acc in ind.lines:
            got = line(obj, acc)
            ref = refs[acc]
            if ind.cls == "VolumePriceTrendIndicator" and p.get("dropnans"):
                keep = ~np.isnan(ref.v)
                if not np.isinf(ref.e).any():
                    if list(got.index) != list(np.flatnonzero(keep)):
                        raise Violation("%s.%s%s: rows kept %s..., expected %d rows" % (
                            ind.cls, acc, fmt(p), list(got.index)[:5], keep.sum()))
                    ref = ref[keep]
                else:
                    continue
            g = arr(got)
            if g.shape != (len(ref),):
                raise Violation("%s.%s%s fillna=%s: %r values for %d bars" % (ind.cls, acc, fmt(p), fill, g.shape,
                                                                              len(ref)))
            bad, strong, weak = iv.compare(g, ref)
            if bad is not None:
                raise Violation(mismatch(ind, acc, p, fill, g, ref, bad))
            stats.c["cells decided"] += strong
            stats.c["cells not decided"] += weak
            first = max(0, ind.lines[acc].first(p))
            if first < len(ref):
                tail = ref[slice(first, None)]
                ok = ~np.isinf(tail.e) & ~np.isnan(tail.v)
                stats.c["cells beyond warm-up"] += int(ok.sum())
                if ok.any():
                    nontrivial = True
        if ind.prop == "C06" and not fill:
            self.compound(data, ser)
        return nontrivial

    def compound(self, data, ser):
        """compounding the daily figures reproduces the cumulative return"""
        I = spec.IND
        one = {c: arr(next(iter(self.out(I[c], ser).values()))) for c in
               ("DailyReturnIndicator", "DailyLogReturnIndicator", "CumulativeReturnIndicator")}
        n = len(data["close"])
        g = np.cumprod(np.concatenate([[1.0], 1 + one["DailyReturnIndicator"][1:] / 100]).astype(iv.LD))
        l = np.exp(np.cumsum(np.concatenate([[0.0], one["DailyLogReturnIndicator"][1:] / 100]).astype(iv.LD)))
        c = 1 + one["CumulativeReturnIndicator"].astype(iv.LD) / 100
        # a step of ratio q rounds to within u of (q-1): relative error u*max(1,1/q) per step
        x = np.asarray(data["close"])
        q = x[1:] / x[:-1]
        err = np.concatenate([[0.0], np.cumsum(8 * iv.U * (2 + 1 / q + np.abs(np.log(np.maximum(x[1:], x[:-1])))
                                                     + np.abs(np.log(x[1:])) + np.abs(np.log(x[:-1]))))])
        err0 = 8 * iv.U * (1 + 1 / np.maximum(x / x[0], 1e-300))
        tol = (err * 4 + err0 * 4 + 1e-15)
        for nm, y in (("daily returns compounded", g), ("log returns summed", l)):
            bad = np.flatnonzero(~(np.abs(y - c) <= tol * np.abs(c) + tol * np.abs(y)))
            ok = tol < 1e-2
            bad = [b for b in bad if ok[b]]
            if bad:
                i = int(bad[0])
                raise Violation("%s give growth %r at bar %d, cumulative return says %r" % (
                    nm, float(y[i]), i, float(c[i])))

    @staticmethod
    def out(ind, ser):
        o = make(ind, ser, {}, False)
        return {a: line(o, a) for a in ind.lines}
