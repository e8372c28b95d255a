"""Relations between runs of the library: look-ahead, filling, warm-up, labels, units,
ranges, composites, lengths, memory, mirror.  The reference models only supply which
cells rounding leaves undetermined (and how wide the tolerance must be), and where a
formula is 0/0."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import gen, iv, spec
from ..core import Violation, lib
from .common import CLEAN, Check, S, arr, base_case, fmt, line, make, mod, note, outputs, ref_lines

KT = iv.K


def bulk(data, ser=None, fill=False, vectorized=False, prefix="", names=None):
    df = pd.DataFrame(ser if ser is not None else gen.frame(data))
    import ta
    return lib(ta.add_all_ta_features, df, open="open", high="high", low="low", close="close", volume="volume",
               fillna=fill, colprefix=prefix, vectorized=vectorized)


class PerIndicator(Check):
    ASSUMPTIONS = CLEAN
    SKIP = ()
    BULK = False
    Q, T = 100, 2000
    NMAX = 420

    def tasks(self, tier):
        n = self.Q if tier == "quick" else self.T
        out = [(i.cls, n) for i in spec.IND.values() if i.cls not in self.SKIP]
        if self.BULK:
            out.append(("bulk", max(30, n // 2)))
        return out

    def generate(self, draw, task):
        if task == "bulk":
            return self.gen_bulk(draw)
        ind = spec.IND[task]
        c = base_case(draw, ind, nmax=self.NMAX, **self.hist(draw, ind))
        self.more(draw, ind, c)
        return c

    def hist(self, draw, ind):
        return {}

    def more(self, draw, ind, c):
        c["fill"] = "both"

    def gen_bulk(self, draw):
        n = gen.length(draw, 1, 200, long_ok=False)
        data, meta = gen.history(draw, n)
        return {"bulk": True, "data": data, "meta": meta, "fill": draw(st.booleans()),
                "vectorized": draw(st.booleans())}

    def run(self, case, stats):
        note(stats, case)
        if case.get("bulk"):
            return self.run_bulk(case, stats)
        ind = spec.IND[case["ind"]]
        nt = False
        for fill in ([False, True] if case["fill"] == "both" else [case["fill"]]):
            nt = bool(self.one(ind, case["params"], fill, case, stats)) or nt
        return nt


def where(ind, acc, p, fill):
    return "%s.%s%s fillna=%s" % (ind.cls, acc, fmt(p), fill)


def same(a, b, tol, skip):
    """index of the first cell where a and b differ by more than tol"""
    with np.errstate(all="ignore"):
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol) | skip
    bad = np.flatnonzero(~ok)
    return int(bad[0]) if len(bad) else None


def tolerance(ref, scale=1.0):
    v = np.abs(np.where(np.isfinite(ref.v), ref.v, 0)).astype(float)
    with np.errstate(all="ignore"):
        return np.where(np.isinf(ref.e), np.inf, KT * ref.e * scale + 8 * iv.U * v * scale)


def dropped(ind, p):
    return ind.cls == "VolumePriceTrendIndicator" and p.get("dropnans")


def full(s, n):
    """row-aligned values; rows that the line dropped on request count as missing"""
    a = arr(s)
    if len(a) == n:
        return a
    out = np.full(n, np.nan)
    try:
        out[np.asarray(s.index, dtype=int)] = a
    except Exception:
        raise Violation("a result of %d rows for %d bars whose labels are not the input's" % (len(a), n))
    return out


def take(data, i, j):
    return {k: v[i:j] for k, v in data.items()}


def cat(a, b):
    return {k: a[k] + b[k] for k in a}


# ------------------------------------------------------------------ C07
class NoLookAhead(PerIndicator):
    ID = "C07"
    Q, T = 150, 3000
    BULK = True
    RULE = ("a history, its prefix up to 1-3 drawn cuts, and the same prefix continued by a different drawn future; the "
            "lines must agree on every bar before the cut (back-filled price lines from their first defined bar). "
            "Non-trivial: some compared bar carries a value beyond the line's warm-up.")

    def more(self, draw, ind, c):
        super().more(draw, ind, c)
        n = len(c["data"]["close"])
        if "offset" in c["params"]:
            c["params"]["offset"] = abs(c["params"]["offset"])
        c["cuts"] = draw(st.lists(st.integers(1, max(1, n)), min_size=1, max_size=3))
        m = draw(st.integers(1, 40))
        c["data2"], _ = gen.history(draw, m)

    def gen_bulk(self, draw):
        c = super().gen_bulk(draw)
        n = len(c["data"]["close"])
        c["cuts"] = [draw(st.integers(1, n))]
        c["data2"], _ = gen.history(draw, draw(st.integers(1, 20)))
        return c

    def run_bulk(self, case, stats):
        data, k = case["data"], min(case["cuts"][0], len(case["data"]["close"]))
        fill = case["fill"]
        a = bulk(data, fill=fill, vectorized=case["vectorized"])
        b = bulk(cat(take(data, 0, k), case["data2"]), fill=fill, vectorized=case["vectorized"])
        d = S(data)
        self._close = d["close"]
        for col, cls, p, acc in spec.bulk_columns(case["vectorized"]):
            ind = spec.IND[cls]
            ref = ref_lines(ind, d, p, fill, filled=False)[acc]
            self.cmp(ind, acc, p, fill, arr(a[col])[:k], arr(b[col])[:k], ref, k, "in the bulk frame ")
        return k > 2

    def cmp(self, ind, acc, p, fill, x, y, ref, k, what=""):
        r = iv.fill(ref, ind.lines[acc].fill, None if ind.lines[acc].fill != "close" else self._close) \
            if fill and not dropped(ind, p) else ref
        tol = tolerance(r)[:k]
        skip = np.isinf(tol)
        if fill and ind.lines[acc].fill == "back":
            und = np.isinf(ref.e[:k])
            dfn = np.isfinite(ref.v[:k]) & ~und
            f = int(np.argmax(dfn)) if dfn.any() else k
            skip = skip | (np.arange(k) < f)
        i = same(x, y, tol, skip)
        if i is not None:
            raise Violation("%s: %sbar %d is %r on the history up to it, %r when the bars from %d on are others" % (
                where(ind, acc, p, fill), what, i, float(y[i]), float(x[i]), k))

    _close = None

    def one(self, ind, p, fill, case, stats):
        data = case["data"]
        n = len(data["close"])
        d = S(data)
        self._close = d["close"]
        refs = ref_lines(ind, d, p, fill, filled=False)
        A = outputs(ind, gen.frame(data), p, fill)
        nt = False
        for k in sorted({min(c, n) for c in case["cuts"]}):
            alts = [take(data, 0, k), cat(take(data, 0, k), case["data2"])]
            for alt in alts:
                B = outputs(ind, gen.frame(alt), p, fill)
                m = len(alt["close"])
                for acc in ind.lines:
                    x, y = full(A[acc], n)[:k], full(B[acc], m)[:k]
                    self.cmp(ind, acc, p, fill, x, y, refs[acc], k)
                    f = max(0, ind.lines[acc].first(p))
                    nt |= f < k < n or f < k < m
                    stats.c["bars compared"] += k
        return nt


# ------------------------------------------------------------------ C08
CASCADE = {"tsi", "ppo_signal", "ppo_hist", "pvo_signal", "pvo_hist", "pvo", "macd_signal", "macd_diff", "trix",
           "mass_index", "stc", "kama", "stochrsi", "stochrsi_k", "stochrsi_d"}


class Filled(PerIndicator):
    ID = "C08"
    Q, T = 150, 3000
    BULK = True
    RULE = ("a history with gap filling on: every cell finite; every cell whose formula is missing or infinite holds the "
            "previous cell's value, or the line's neutral constant (first defined value for price lines) if there is "
            "none; defined values are those of the run without filling. Non-trivial: the line had a gap to fill.")

    def more(self, draw, ind, c):
        c["fill"] = True
        if c["params"].get("dropnans"):
            c["params"]["dropnans"] = draw(st.integers(0, 5)) == 0

    def run_bulk(self, case, stats):
        data = case["data"]
        df = bulk(data, fill=True, vectorized=case["vectorized"])
        for col in df.columns:
            a = arr(df[col])
            bad = np.flatnonzero(~np.isfinite(a))
            if len(bad):
                raise Violation("bulk builder fillna=True: column %s is %r at bar %d of %d" % (
                    col, float(a[bad[0]]), bad[0], len(a)))
        return True

    def one(self, ind, p, fill, case, stats):
        data = case["data"]
        n = len(data["close"])
        d = S(data)
        ser = gen.frame(data)
        refs = ref_lines(ind, d, p, True, filled=False)
        on = outputs(ind, ser, p, True)
        off = outputs(ind, ser, p, False)
        nt = False
        for acc, ln in ind.lines.items():
            g = arr(on[acc])
            bad = np.flatnonzero(~np.isfinite(g))
            if len(bad):
                raise Violation("%s: bar %d of %d is %r" % (where(ind, acc, p, True), bad[0], n, float(g[bad[0]])))
            if dropped(ind, p):
                continue
            if g.shape != (n,):
                raise Violation("%s: %r values for %d bars" % (where(ind, acc, p, True), g.shape, n))
            r = refs[acc]
            und = np.isinf(r.e)
            gap = ~np.isfinite(r.v) & ~und
            nt |= bool(gap.any())
            stats.c["gap cells"] += int(gap.sum())
            seen = "none"
            close = np.asarray(data["close"])
            first = np.flatnonzero(~gap)
            for t in np.flatnonzero(gap):
                before = first[first < t]
                if len(before):
                    if g[t] != g[t - 1]:
                        raise Violation("%s: bar %d has no value of its own and shows %r, not the last value %r" % (
                            where(ind, acc, p, True), t, float(g[t]), float(g[t - 1])))
                    continue
                f = ln.fill
                if f == "back":
                    after = first[first > t]
                    want = g[after[0]] if len(after) else 0.0
                elif f == "close":
                    want = close[t]
                else:
                    want = float(f) if f is not None else g[t]
                if g[t] != want:
                    raise Violation("%s: bar %d precedes every value and shows %r, not %r" % (
                        where(ind, acc, p, True), t, float(g[t]), float(want)))
            if acc not in CASCADE:
                o = full(off[acc], n)
                tol = np.where(und, np.inf, 2 * tolerance(r))
                fst = max(0, ln.first(p))
                skip = und | ~np.isfinite(o) | gap | (np.arange(n) < fst)
                i = same(g, o, tol, skip)
                if i is not None:
                    raise Violation("%s: bar %d was defined (%r) but is reported as %r with filling on" % (
                        where(ind, acc, p, True), i, float(o[i]), float(g[i])))
        return nt


# ------------------------------------------------------------------ C09
class WarmUp(PerIndicator):
    ID = "C09"
    Q, T = 220, 4000
    RULE = ("a history with gap filling off; the first bar with a value is a closed formula of the parameters: nothing "
            "before it (Wilder lines and flags: 0), something from it on unless the formula is 0/0 there. Non-trivial: "
            "the history is longer than the warm-up, which is at least one bar.")

    def more(self, draw, ind, c):
        c["fill"] = False
        if "dropnans" in c["params"]:
            c["params"]["dropnans"] = False

    def one(self, ind, p, fill, case, stats):
        data = case["data"]
        n = len(data["close"])
        out = outputs(ind, gen.frame(data), p, False)
        refs = ref_lines(ind, data, p, False)
        nt = False
        for acc, ln in ind.lines.items():
            g = arr(out[acc])
            if g.shape != (n,):
                raise Violation("%s: %r values for %d bars" % (where(ind, acc, p, False), g.shape, n))
            f = max(0, ln.first(p))
            head = g[:f]
            bad = np.flatnonzero(~np.isnan(head)) if ln.ph is None else np.flatnonzero(head != ln.ph)
            if len(bad):
                raise Violation("%s: bar %d shows %r, but its look-back is complete only from bar %d on" % (
                    where(ind, acc, p, False), bad[0], float(g[bad[0]]), f))
            r = refs[acc]
            if acc in ("psar_up", "psar_down"):
                continue
            miss = np.isnan(g) & ~np.isnan(r.v) & ~np.isinf(r.e) & (np.arange(n) >= f)
            bad = np.flatnonzero(miss)
            if len(bad):
                raise Violation("%s: bar %d is missing although its look-back is complete from bar %d on" % (
                    where(ind, acc, p, False), bad[0], f))
            nt |= 0 < f < n
        if ind.cls == "PSARIndicator":
            u, dn = arr(out["psar_up"]), arr(out["psar_down"])
            bad = np.flatnonzero(np.isnan(u[2:]) & np.isnan(dn[2:]))
            if len(bad):
                raise Violation("PSARIndicator%s: bar %d has no SAR" % (fmt(p), bad[0] + 2))
        return nt


# ------------------------------------------------------------------ C13
class Labels(PerIndicator):
    ID = "C13"
    Q, T = 130, 2500
    BULK = True
    RULE = ("a history under one of 15 kinds of row labels (shifted, reversed, swapped, float, dates, time zones, "
            "strings, repeated, two-level), and whole-number histories stored as integers (8 to 64 bits, with or without sign), against the "
            "same numbers as floats on a default index. Non-trivial: labels or types differ and more than two bars.")

    def hist(self, draw, ind):
        if draw(st.integers(0, 9)) < 4:
            return {"unit": "int", "exact": True}
        return {}

    def more(self, draw, ind, c):
        super().more(draw, ind, c)
        c["index"] = draw(st.sampled_from(gen.INDEX_KINDS[::-1]))
        c["ints"] = []
        if c["meta"]["unit"] == "int":
            k = draw(st.integers(0, 2))
            c["ints"] = ["open", "high", "low", "close", "volume"] if k < 2 else \
                draw(st.lists(st.sampled_from(["high", "low", "close", "volume"]), unique=True))
            c["itype"] = draw(st.sampled_from(gen.INT_TYPES))

    def gen_bulk(self, draw):
        n = gen.length(draw, 1, 120, long_ok=False)
        ints = draw(st.integers(0, 2)) == 0
        data, meta = gen.history(draw, n, **({"unit": "int", "exact": True} if ints else {}))
        return {"bulk": True, "data": data, "meta": meta, "fill": draw(st.booleans()),
                "vectorized": draw(st.integers(0, 3)) == 0, "index": draw(st.sampled_from(gen.INDEX_KINDS[::-1])),
                "ints": ["open", "high", "low", "close", "volume"] if ints else [],
                "itype": draw(st.sampled_from(gen.INT_TYPES)) if ints else "int64"}

    @staticmethod
    def ints_ok(case):
        return all(float(x).is_integer() for k in case["ints"] for x in case["data"][k])

    def run_bulk(self, case, stats):
        data = case["data"]
        ints = case["ints"] if self.ints_ok(case) else []
        stats.c["labels:" + case["index"]] += 1
        a = bulk(data, fill=case["fill"], vectorized=case["vectorized"])
        ser = gen.frame(data, case["index"], ints, case.get("itype", "int64"))
        idx = ser["close"].index
        b = bulk(data, ser=ser, fill=case["fill"], vectorized=case["vectorized"])
        if not same_index(b.index, idx):
            raise Violation("bulk builder: row labels changed for index kind %s" % case["index"])
        d = S(data)
        for col, cls, p, acc in spec.bulk_columns(case["vectorized"]):
            ind = spec.IND[cls]
            tol, skip = 0.0, np.zeros(len(idx), bool)
            if ints:
                r = ref_lines(ind, d, p, case["fill"])[acc]
                tol = tolerance(r); skip = np.isinf(tol)
            i = same(arr(a[col]), arr(b[col]), tol, skip)
            if i is not None:
                raise Violation("bulk builder column %s, index kind %s, integers %s: bar %d is %r, %r on the default "
                                "index" % (col, case["index"], kinds(ser, ints), i, float(arr(b[col])[i]), float(arr(a[col])[i])))
        return len(idx) > 2

    def one(self, ind, p, fill, case, stats):
        data = case["data"]
        n = len(data["close"])
        ints = case["ints"] if self.ints_ok(case) else []
        stats.c["labels:" + case["index"]] += 1
        if ints:
            stats.c["stored as integers"] += 1
            stats.c["type:" + case.get("itype", "int64")] += 1
        A = outputs(ind, gen.frame(data), p, fill)
        ser = gen.frame(data, case["index"], ints, case.get("itype", "int64"))
        idx = ser["close"].index
        B = outputs(ind, ser, p, fill)
        refs = ref_lines(ind, data, p, fill) if ints else None
        for acc in ind.lines:
            want = idx
            if dropped(ind, p):
                want = idx.take(np.asarray(A[acc].index, dtype=int))
            if not isinstance(B[acc], pd.Series) or not same_index(B[acc].index, want):
                raise Violation("%s: row labels of the result differ from the input's (index kind %s)" % (
                    where(ind, acc, p, fill), case["index"]))
            a, b = arr(A[acc]), arr(B[acc])
            tol, skip = 0.0, np.zeros(len(a), bool)
            if ints and not dropped(ind, p):
                tol = tolerance(refs[acc]); skip = np.isinf(tol)
            elif ints:
                tol = 1e-9 * (np.abs(a) + np.nanmax(np.abs(a), initial=0))
            if len(a) != len(b):
                raise Violation("%s: %d rows instead of %d (index kind %s, integers %s)" % (
                    where(ind, acc, p, fill), len(b), len(a), case["index"], kinds(ser, ints)))
            i = same(a, b, tol, skip)
            if i is not None:
                raise Violation("%s: bar %d is %r with index kind %s and integer columns %s, but %r with floats on the "
                                "default index" % (where(ind, acc, p, fill), i, float(b[i]), case["index"], kinds(ser, ints),
                                                   float(a[i])))
        return n > 2 and (case["index"] != "range" or bool(ints))


def kinds(ser, ints):
    return {k: str(ser[k].dtype) for k in ints if k in ser}


def same_index(a, b):
    if len(a) != len(b) or not a.equals(b):
        return False
    return str(getattr(a, "dtype", "")) == str(getattr(b, "dtype", ""))


# ------------------------------------------------------------------ C14
def pow2(x):
    return np.frexp(x)[0] == 0.5


class Units(PerIndicator):
    ID = "C14"
    Q, T = 170, 3500
    RULE = ("a history and the same history in other units (prices x s, volumes x q; powers of two from 2^-45 to 2^45 and "
            "decimal factors); each line must scale with its dimension. Non-trivial: s or q differs from 1 and a "
            "value beyond the warm-up was compared.")

    def more(self, draw, ind, c):
        super().more(draw, ind, c)
        f = st.one_of(st.integers(-45, 45).map(lambda k: float(2.0 ** k)),
                      st.sampled_from([10.0, 0.01, 1e-6, 3.7, 1e-8, 1e5, 12345.678]))
        c["s"] = draw(f)
        c["q"] = draw(st.one_of(st.just(1.0), f)) if "volume" in ind.ins else 1.0

    def one(self, ind, p, fill, case, stats):
        s, q = case["s"], case["q"]
        data = case["data"]
        two = {k: [x * (q if k == "volume" else s) for x in v] for k, v in data.items()}
        n = len(data["close"])
        A = outputs(ind, gen.frame(data), p, fill)
        B = outputs(ind, gen.frame(two), p, fill)
        ra = ref_lines(ind, data, p, fill)
        exact = pow2(s) and pow2(q)
        d2 = S(two)
        if not exact:
            # the factor itself rounds every price: half an ulp of input error
            for k in d2:
                if not pow2(q if k == "volume" else s):
                    d2[k] = iv.S(d2[k].v, np.abs(np.asarray(two[k])) * iv.U)
        rb = ref_lines(ind, d2, p, fill)
        nt = False
        for acc, ln in ind.lines.items():
            f = s ** ln.dim[0] * q ** ln.dim[1]
            a, b = full(A[acc], n), full(B[acc], n)
            if exact:
                t2 = tolerance(rb[acc])
                tol = tolerance(ra[acc]) * abs(f) + np.where(np.isfinite(t2), t2, 0)
            else:
                tol = tolerance(ra[acc]) * abs(f) + tolerance(rb[acc])
            skip = ~np.isfinite(tol)
            tol = np.where(skip, 0, tol)
            with np.errstate(all="ignore"):
                af = a * f
            i = same(af, b, tol, skip)
            if i is not None:
                raise Violation("%s: bar %d is %r; with prices x %r and volumes x %r it is %r, expected %r" % (
                    where(ind, acc, p, fill), i, float(a[i]), s, q, float(b[i]), float(af[i])))
            t = slice(max(0, ln.first(p)), None)
            nt |= bool((np.isfinite(a[t]) & ~skip[t]).any())
        return nt and (s != 1 or q != 1)


# ------------------------------------------------------------------ C15
class Ranges(PerIndicator):
    ID = "C15"
    Q, T = 220, 4000
    SKIP = ("PercentagePriceOscillator", "PercentageVolumeOscillator", "MACD", "TRIXIndicator", "KSTIndicator",
            "DPOIndicator", "CCIIndicator", "AwesomeOscillatorIndicator", "ROCIndicator", "AccDistIndexIndicator",
            "OnBalanceVolumeIndicator", "ForceIndexIndicator", "EaseOfMovementIndicator",
            "VolumePriceTrendIndicator", "DailyReturnIndicator", "DailyLogReturnIndicator",
            "CumulativeReturnIndicator", "IchimokuIndicator")
    RULE = ("a valid history; documented ranges of the oscillators, averages within the prices they average, order of the "
            "bands, Donchian containment, SAR side. Non-trivial: a value beyond the warm-up was judged.")

    def one(self, ind, p, fill, case, stats):
        data = case["data"]
        n = len(data["close"])
        out = {a: arr(x) for a, x in outputs(ind, gen.frame(data), p, fill).items()}
        refs = ref_lines(ind, data, p, fill)
        pre = ref_lines(ind, data, p, fill, filled=False)
        nt = False
        h, l, c = (np.asarray(data[k]) for k in ("high", "low", "close"))
        tol = {a: tolerance(refs[a]) for a in refs}
        t_all = np.arange(n)
        for acc, ln in ind.lines.items():
            g = out[acc]
            if g.shape != (n,):
                raise Violation("%s: %r values for %d bars" % (where(ind, acc, p, fill), g.shape, n))
            judged = ~np.isinf(tol[acc]) & ~np.isnan(g)
            t = slice(max(0, ln.first(p)), None)
            nt |= bool(judged[t].any())
            if ln.rng:
                lo, hi = ln.rng
                w = (hi - lo if hi is not None else 1.0) * 1e-9
                bad = judged & ((g < lo - w - tol[acc]) | ((g > hi + w + tol[acc]) if hi is not None else False))
                if bad.any():
                    i = int(np.argmax(bad))
                    raise Violation("%s: bar %d is %r, outside [%s, %s]" % (where(ind, acc, p, fill), i, float(g[i]),
                                                                            lo, hi))
            if acc.endswith("_indicator") and ln.rng == (0, 1):
                bad = ~((g == 0) | (g == 1))
                if bad.any():
                    i = int(np.argmax(bad))
                    raise Violation("%s: flag is %r at bar %d" % (where(ind, acc, p, fill), float(g[i]), i))
        def inside(acc, lo, hi, live):
            g = out[acc]
            m = live & ~np.isinf(tol[acc]) & ~np.isnan(g) & np.isfinite(pre[acc].v)
            bad = m & ((g < lo - tol[acc] - 1e-12 * np.abs(lo)) | (g > hi + tol[acc] + 1e-12 * np.abs(hi)))
            if bad.any():
                i = int(np.argmax(bad))
                raise Violation("%s: bar %d is %r, outside the prices averaged [%r, %r]" % (
                    where(ind, acc, p, fill), i, float(g[i]), float(lo[i]), float(hi[i])))

        def roll(x, w, f):
            return np.array([f(x[max(0, t - w + 1): t + 1]) for t in range(n)])

        live = t_all >= 0
        cls = ind.cls
        if cls == "SMAIndicator":
            inside("sma_indicator", roll(c, p["window"], np.min), roll(c, p["window"], np.max), live)
        elif cls == "WMAIndicator":
            inside("wma", roll(c, p["window"], np.min), roll(c, p["window"], np.max), t_all >= p["window"] - 1)
        elif cls == "EMAIndicator":
            inside("ema_indicator", np.minimum.accumulate(c), np.maximum.accumulate(c), live)
        elif cls == "KAMAIndicator":
            inside("kama", np.minimum.accumulate(c), np.maximum.accumulate(c), live)
        elif cls == "VolumeWeightedAveragePrice":
            inside("volume_weighted_average_price", roll(l, p["window"], np.min), roll(h, p["window"], np.max), live)
        chan = {"BollingerBands": ("bollinger_lband", "bollinger_mavg", "bollinger_hband"),
                "KeltnerChannel": ("keltner_channel_lband", "keltner_channel_mband", "keltner_channel_hband"),
                "DonchianChannel": ("donchian_channel_lband", "donchian_channel_mband", "donchian_channel_hband")}
        if cls in chan:
            lo, mi, hi = chan[cls]
            for a, b in ((lo, mi), (mi, hi)):
                if np.isnan(out[a]).tolist() != np.isnan(out[b]).tolist():
                    raise Violation("%s%s fillna=%s: %s and %s are not defined on the same bars" % (
                        cls, fmt(p), fill, a, b))
                with np.errstate(all="ignore"):
                    bad = out[a] > out[b] + tol[a] + tol[b] + 1e-12 * np.abs(out[b])
                bad &= ~np.isinf(tol[a] + tol[b])
                if bad.any():
                    i = int(np.argmax(bad))
                    raise Violation("%s%s fillna=%s: bar %d has %s %r above %s %r" % (
                        cls, fmt(p), fill, i, a, float(out[a][i]), b, float(out[b][i])))
            if cls == "DonchianChannel":
                w, o = p["window"], p["offset"]
                for t in range(n):
                    e = t - o
                    if e < 0 or e >= n or (not fill and e < w - 1):
                        continue
                    a = max(0, e - w + 1)
                    if out[hi][t] < h[a:e + 1].max() or out[lo][t] > l[a:e + 1].min():
                        raise Violation("%s%s fillna=%s: bar %d's channel [%r, %r] does not contain its window" % (
                            cls, fmt(p), fill, t, float(out[lo][t]), float(out[hi][t])))
        if cls == "PSARIndicator" and not fill:
            up, dn = out["psar_up"], out["psar_down"]
            for t in range(n):
                k = (not np.isnan(up[t])) + (not np.isnan(dn[t]))
                if k != (1 if t >= 2 else 0):
                    raise Violation("PSARIndicator%s: %d SAR lines defined at bar %d" % (fmt(p), k, t))
                if t < 3:
                    continue
                if not np.isnan(up[t]) and not np.isnan(up[t - 1]) and up[t] > l[t] * (1 + 1e-12):
                    raise Violation("PSARIndicator%s: up-trend SAR %r above the low %r of bar %d" % (
                        fmt(p), float(up[t]), float(l[t]), t))
                if not np.isnan(dn[t]) and not np.isnan(dn[t - 1]) and dn[t] < h[t] * (1 - 1e-12):
                    raise Violation("PSARIndicator%s: down-trend SAR %r below the high %r of bar %d" % (
                        fmt(p), float(dn[t]), float(h[t]), t))
        return nt


# ------------------------------------------------------------------ C18
class AnyLength(PerIndicator):
    ID = "C18"
    Q, T = 220, 4000
    BULK = True
    RULE = ("histories of 1 bar upwards with windows from 1 to several times the length (every parameter its own), all row "
            "labels: no exception, input's length and labels, float column, documented name. Per indicator also a few "
            "histories of 1000 to 3500 bars. Non-trivial: a window exceeds the history, or the history has at most three "
            "or at least a thousand bars.")

    def tasks(self, tier):
        n = 2 if tier == "quick" else 60
        return super().tasks(tier) + [("long:" + i.cls, n) for i in spec.IND.values()] + [("long:bulk", n)]

    def generate(self, draw, task):
        if task.startswith("long:"):
            n = draw(st.integers(1000, 3500 if task != "long:bulk" else 1400))
            data, meta = gen.history(draw, n)
            c = {"data": data, "meta": meta, "index": draw(st.sampled_from(gen.INDEX_KINDS))}
            if task == "long:bulk":
                return dict(c, bulk=True, fill=draw(st.booleans()), vectorized=draw(st.booleans()))
            ind = spec.IND[task[5:]]
            p = gen.params(draw, ind, n)
            for name, _, kind in ind.params:
                if kind == "w" and draw(st.integers(0, 2)):
                    p[name] = draw(st.integers(1, 40))
            return dict(c, ind=ind.cls, params=p, fill="both")
        if task == "bulk":
            n = draw(st.integers(1, 70))
            data, meta = gen.history(draw, n)
            return {"bulk": True, "data": data, "meta": meta, "fill": draw(st.booleans()),
                    "vectorized": draw(st.booleans()), "index": draw(st.sampled_from(gen.INDEX_KINDS))}
        ind = spec.IND[task]
        n = draw(st.one_of(st.integers(1, 4), st.integers(1, 40), st.integers(1, 90)))
        p = gen.params(draw, ind, n)
        for name, _, kind in ind.params:
            if kind == "w" and draw(st.integers(0, 3)) == 0:
                # just beyond the history, or far beyond it
                p[name] = draw(st.integers(max(1, n - 1), 3 * n + 2)) if draw(st.integers(0, 3)) else \
                    draw(st.integers(3 * n, 300 * n + 1000))
        data, meta = gen.history(draw, n)
        return {"ind": ind.cls, "params": p, "data": data, "meta": meta, "fill": "both",
                "index": draw(st.sampled_from(gen.INDEX_KINDS))}

    def run_bulk(self, case, stats):
        ser = gen.frame(case["data"], case["index"])
        idx = ser["close"].index
        df = bulk(case["data"], ser=ser, fill=case["fill"], vectorized=case["vectorized"])
        if not same_index(df.index, idx):
            raise Violation("bulk builder: rows changed (%d for %d)" % (len(df), len(idx)))
        for col, _, _, _ in spec.bulk_columns(case["vectorized"]):
            if col not in df.columns:
                raise Violation("bulk builder: no column %s on a history of %d bars" % (col, len(idx)))
            if df[col].dtype != np.float64:
                raise Violation("bulk builder: column %s has type %s" % (col, df[col].dtype))
        return len(idx) < 60 or len(idx) >= 1000

    def one(self, ind, p, fill, case, stats):
        n = len(case["data"]["close"])
        ser = gen.frame(case["data"], case["index"])
        idx = ser["close"].index
        for acc, s in outputs(ind, ser, p, fill).items():
            w = where(ind, acc, p, fill)
            if not isinstance(s, pd.Series):
                raise Violation("%s: result is a %s" % (w, type(s).__name__))
            if dropped(ind, p):
                if len(s) > n:
                    raise Violation("%s: %d rows for %d bars" % (w, len(s), n))
            elif len(s) != n or not same_index(s.index, idx):
                raise Violation("%s: %d rows for %d bars, or other labels" % (w, len(s), n))
            if s.dtype != np.float64:
                raise Violation("%s: column type %s on %d bars" % (w, s.dtype, n))
            want = ind.lines[acc].name.format(**p)
            if s.name != want:
                raise Violation("%s: named %r, documented %r" % (w, s.name, want))
        ws = [p[k] for k, _, kind in ind.params if kind == "w"]
        return n <= 3 or n >= 1000 or (bool(ws) and max(ws) > n)


# ------------------------------------------------------------------ C19
class Memory(PerIndicator):
    ID = "C19"
    Q, T = 200, 4000
    RUN_TOTAL = {"acc_dist_index", "on_balance_volume", "volume_price_trend"}
    FACTOR = {"negative_volume_index", "cumulative_return"}
    RULE = ("a history, the same with its first k bars dropped, and the same with its first k bars replaced by another "
            "drawn history: windowed lines agree once the look-back lies inside the common part, running totals differ "
            "by one constant, growth lines by one factor. Non-trivial: at least two bars were compared.")

    def tasks(self, tier):
        n = self.Q if tier == "quick" else self.T
        out = []
        for i in spec.IND.values():
            if any(l.mem is not None for l in i.lines.values()) or set(i.lines) & (self.RUN_TOTAL | self.FACTOR):
                out.append((i.cls, n))
        return out

    def more(self, draw, ind, c):
        super().more(draw, ind, c)
        n = len(c["data"]["close"])
        p = c["params"]
        if "dropnans" in p:
            p["dropnans"] = False
            p["smoothing_factor"] = None
        if n > 8:
            # leave room for the look-back in the common part
            for name, _, kind in ind.params:
                if kind == "w" and p[name] > n // 3 and draw(st.integers(0, 4)):
                    p[name] = draw(st.integers(1, max(1, n // 4)))
        c["k"] = draw(st.integers(1, max(1, n // 2)))
        c["data2"], _ = gen.history(draw, draw(st.integers(1, 30)), unit=c["meta"]["unit"]
                                    if c["meta"]["unit"] != "dict" else "grid16")

    def one(self, ind, p, fill, case, stats):
        data = case["data"]
        n = len(data["close"])
        k = min(case["k"], n - 1)
        if k < 1:
            return False
        tail = take(data, k, n)
        alts = [(tail, 0), (cat(case["data2"], tail), len(case["data2"]["close"]))]
        A = outputs(ind, gen.frame(data), p, fill)
        ra = ref_lines(ind, data, p, fill, filled=False)
        nt = False
        for alt, o in alts:
            B = outputs(ind, gen.frame(alt), p, fill)
            rb = ref_lines(ind, alt, p, fill, filled=False)
            for acc, ln in ind.lines.items():
                m = ln.mem(p) if ln.mem else None
                a, b = arr(A[acc])[k:], arr(B[acc])[o:]
                xa, xb = ra[acc][slice(k, None)], rb[acc][slice(o, None)]
                tol = tolerance(xa) + tolerance(xb)
                skip = ~np.isfinite(tol)
                if len(a) != n - k or len(b) != n - k:
                    raise Violation("%s: result is not row-aligned" % where(ind, acc, p, fill))
                if m is not None:
                    m = max(0, m)
                    if fill:
                        skip = skip | ~np.isfinite(xa.v) | ~np.isfinite(xb.v)
                    skip = skip | (np.arange(n - k) < m)
                    i = same(a, b, np.where(skip, 0, tol), skip)
                    if i is not None:
                        raise Violation("%s: bar %d is %r, but %r when the bars before its look-back are %s" % (
                            where(ind, acc, p, fill), i + k, float(a[i]), float(b[i]),
                            "dropped" if not o else "others"))
                    nt |= n - k > m + 1
                elif acc in self.RUN_TOTAL | self.FACTOR:
                    if not o and acc == "volume_price_trend":
                        a, b, tol, skip = a[1:], b[1:], tol[1:], skip[1:]
                    if acc == "cumulative_return":
                        a, b = 1 + a / 100, 1 + b / 100
                        tol = tol / 100 + 8 * iv.U * (1 + np.abs(a) + np.abs(b))
                    ok = np.flatnonzero(~skip & np.isfinite(a) & np.isfinite(b))
                    if len(ok) < 2:
                        continue
                    nt = True
                    j = ok[0]
                    if acc in self.FACTOR:
                        if not (a[j] > 0 and b[j] > 0):
                            continue
                        with np.errstate(all="ignore"):
                            x, y = a[ok] * b[j], b[ok] * a[j]
                            t = 2 * (tol[ok] * (abs(a[j]) + abs(b[j])) + tol[j] * (np.abs(a[ok]) + np.abs(b[ok]))) \
                                + 16 * iv.U * (np.abs(x) + np.abs(y))
                    else:
                        x, y = a[ok] - a[j], b[ok] - b[j]
                        t = 2 * (tol[ok] + tol[j]) + 16 * iv.U * (np.abs(a[ok]) + np.abs(b[ok]) + abs(a[j]) + abs(b[j]))
                    i = same(x, y, t, np.zeros(len(x), bool))
                    if i is not None:
                        raise Violation("%s: from bar %d to bar %d the line develops differently depending on the bars "
                                        "before (%r vs %r)" % (where(ind, acc, p, fill), j + k, ok[i] + k, float(x[i]),
                                                               float(y[i])))
        return nt


# ------------------------------------------------------------------ C21
class Mirror(PerIndicator):
    ID = "C21"
    Q, T = 220, 4000
    RULE = ("a history on a dyadic grid and its exact reflection p -> K - p (highs and lows exchanged); each symmetric "
            "line must reflect. Non-trivial: a value beyond the warm-up was compared.")

    def tasks(self, tier):
        n = self.Q if tier == "quick" else self.T
        return [(i.cls, n) for i in spec.IND.values() if any(l.mirror for l in i.lines.values())]

    def hist(self, draw, ind):
        return {"unit": draw(st.sampled_from(["grid16", "grid16", "grid256", "int"])), "exact": True}

    def more(self, draw, ind, c):
        super().more(draw, ind, c)
        if ind.cls in ("RSIIndicator", "StochRSIIndicator"):
            c["params"]["window"] = max(2, c["params"]["window"])
            c["fill"] = False

    def one(self, ind, p, fill, case, stats):
        data = case["data"]
        n = len(data["close"])
        K = max(data["high"]) + min(data["low"])
        two = {"open": [K - x for x in data["open"]], "high": [K - x for x in data["low"]],
               "low": [K - x for x in data["high"]], "close": [K - x for x in data["close"]],
               "volume": data["volume"]}
        A = outputs(ind, gen.frame(data), p, fill)
        B = outputs(ind, gen.frame(two), p, fill)
        ra, rb = ref_lines(ind, data, p, fill), ref_lines(ind, two, p, fill)
        pre = ref_lines(ind, data, p, fill, filled=False) if fill else None
        c = np.asarray(data["close"])
        nt = False
        for acc, ln in ind.lines.items():
            if not ln.mirror:
                continue
            to, a0, b0 = ln.mirror
            a0 = K if a0 == "K" else a0
            if fill:
                f, g = ln.fill, ind.lines[to].fill
                if isinstance(f, (int, float)) and a0 + b0 * f != g:
                    continue
                if f == "back" and not np.isfinite(pre[acc].v).any():
                    continue
            a, b = arr(A[acc]), arr(B[to])
            if len(a) != n or len(b) != n:
                raise Violation("%s: result is not row-aligned" % where(ind, acc, p, fill))
            tol = tolerance(ra[acc]) + tolerance(rb[to])
            skip = ~np.isfinite(tol)
            with np.errstate(all="ignore"):
                want = a0 + b0 * a
            if ind.cls in ("RSIIndicator", "StochRSIIndicator"):
                mv = np.flatnonzero(c != c[0])
                L = int(mv[0]) if len(mv) else n
                if ind.cls == "StochRSIIndicator" and L < n:
                    L += p["window"] + p["smooth1"] + p["smooth2"]
                skip = skip | (np.arange(n) < L)
            if ln.ph is not None:
                skip = skip | (np.arange(n) < ln.first(p))
            i = same(want, b, np.where(skip, 0, tol + 8 * iv.U * (abs(a0) + 1)), skip)
            if i is not None:
                raise Violation("%s: bar %d is %r, so the reflected history should have %s %r, but it has %r" % (
                    where(ind, acc, p, fill), i, float(a[i]), to, float(want[i]), float(b[i])))
            t = slice(max(0, ln.first(p)), None)
            nt |= bool((np.isfinite(a[t]) & ~skip[t]).any())
        return nt
