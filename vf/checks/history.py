"""C25 missing bars, C26 copies of indicators, C27 parameters and cross-indicator identities."""
import copy
import pickle

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import gen, iv, spec
from ..core import Violation, lib
from ..iv import LD, S
from .common import CLEAN, Check, arr, fmt, line, make, note, outputs, ref_lines
from .contract import identical
from .meta import PerIndicator, same, tolerance, where
from .relations import Ctx, operand

I = spec.IND
NAN = float("nan")


# ------------------------------------------------------------------ C25
class Gaps(PerIndicator):
    ID = "C25"
    Q, T = 220, 4500
    RULE = ("lead: the history with 1-30 wholly missing rows put in front, compared with the plain one (filling off and "
            "on). gap: the history with 1-4 rows made wholly missing, windowed lines compared with the intact one on "
            "every bar whose look-back holds no missing row, and required to be missing where it does. Non-trivial: at "
            "least two defined bars were compared.")
    ASSUMPTIONS = CLEAN + ["apart from rows in which every price and the volume are missing, histories are clean"]
    # step-by-step lines that start at the very first row
    ROOTED = {"KAMAIndicator", "ADXIndicator", "PSARIndicator", "AverageTrueRange", "CumulativeReturnIndicator"}
    EARLIER = {"rsi", "stochrsi", "stochrsi_k", "stochrsi_d"}   # same values, may appear some bars sooner
    # with filling on the windows still growing at the start also reach into the missing rows
    GROWING = {"StochRSIIndicator", "AroonIndicator", "CCIIndicator"}
    # look-back made of end points or spanning steps, or lines that always report a number
    LOOSE = {"roc", "kst", "kst_sig", "kst_diff", "ulcer_index", "money_flow_index"}

    def more(self, draw, ind, c):
        n = len(c["data"]["close"])
        p = c["params"]
        if "dropnans" in p:
            p["dropnans"] = False
        if "offset" in p:
            p["offset"] = abs(p["offset"])
        modes = []
        if ind.cls not in self.ROOTED and p.get("original_version") is not False:
            modes.append("lead")
        if any(l.mem is not None and l.mem(p) is not None for l in ind.lines.values()):
            modes.append("gap")
        c["mode"] = draw(st.sampled_from(modes)) if modes else None
        if c["mode"] == "lead":
            c["k"] = draw(st.integers(1, 30))
            c["fill"] = draw(st.booleans()) and ind.cls not in self.GROWING
        elif c["mode"]:
            c["fill"] = False
            c["rows"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4))
            for name, _, kind in ind.params:
                if kind == "w" and p[name] > n // 3 and draw(st.integers(0, 4)):
                    p[name] = draw(st.integers(1, max(1, n // 6)))
        else:
            c["fill"] = False

    def tasks(self, tier):
        n = self.Q if tier == "quick" else self.T
        return [(i.cls, n) for i in I.values()
                if i.cls not in self.ROOTED]

    def one(self, ind, p, fill, case, stats):
        if not case["mode"]:
            return False
        stats.c["mode:" + case["mode"]] += 1
        data = case["data"]
        n = len(data["close"])
        A = outputs(ind, gen.frame(data), p, fill)
        ra = ref_lines(ind, data, p, fill, filled=False)
        if case["mode"] == "lead":
            return self.lead(ind, p, fill, case["k"], data, n, A, ra)
        rows = sorted({t for t in case["rows"] if t < n})
        if not rows:
            return False
        d2 = {k: [NAN if t in rows else x for t, x in enumerate(v)] for k, v in data.items()}
        B = outputs(ind, gen.frame(d2), p, fill)
        nt = False
        for acc, ln in ind.lines.items():
            if ln.mem is None or ln.mem(p) is None:
                continue
            m = max(0, ln.mem(p))
            a, b = arr(A[acc]), arr(B[acc])
            if len(a) != n or len(b) != n:
                raise Violation("%s: result is not row-aligned when rows are missing" % where(ind, acc, p, fill))
            touched = np.zeros(n, bool)
            for t in rows:
                touched[t:t + m + 1] = True
            tol = 2 * tolerance(ra[acc])
            # an infinite reading carries its sign from a noisy numerator
            skip = ~np.isfinite(tol) | touched
            i = same(a, b, np.where(skip, 0, tol), skip)
            if i is not None:
                raise Violation("%s: bar %d of %d is %r, but %r when the rows %s, outside its look-back of %d bars, are "
                                "missing" % (where(ind, acc, p, fill), i, n, float(a[i]), float(b[i]), rows, m))
            ok = ~skip & ~np.isnan(a) & (np.arange(n) > rows[0])
            nt |= ok.sum() >= 2
            if acc in self.LOOSE or ln.ph is not None or p.get("visual") or p.get("offset"):
                continue
            bad = np.flatnonzero(touched & ~np.isnan(b))
            if len(bad):
                raise Violation("%s: bar %d of %d reports %r although row %d in its look-back is missing" % (
                    where(ind, acc, p, fill), bad[0], n, float(b[bad[0]]), max(t for t in rows if t <= bad[0])))
        return nt

    def lead(self, ind, p, fill, k, data, n, A, ra):
        B = outputs(ind, gen.frame({c: [NAN] * k + v for c, v in data.items()}), p, fill)
        nt = False
        for acc, ln in ind.lines.items():
            a, b = arr(A[acc]), arr(B[acc])
            if len(a) != n or len(b) != n + k:
                raise Violation("%s: result is not row-aligned when rows are missing" % where(ind, acc, p, fill))
            x = ra[acc]
            tol = 2 * tolerance(x)
            skip = ~np.isfinite(tol)
            if fill:
                # a filled cell repeats an earlier one: judge the defined cells
                skip = skip | ~np.isfinite(x.v)
            if acc in self.EARLIER:
                skip = skip | np.isnan(a)
            i = same(a, b[k:], np.where(skip, 0, tol), skip)
            if i is not None:
                raise Violation("%s: bar %d of %d is %r, but %r with %d missing rows in front" % (
                    where(ind, acc, p, fill), i, n, float(a[i]), float(b[k + i]), k))
            if not fill and ln.ph is None and acc not in self.EARLIER and acc != "negative_volume_index":
                bad = np.flatnonzero(~np.isnan(b[:k]))
                if len(bad):
                    raise Violation("%s: reports %r for a row without any data (%d such rows in front)" % (
                        where(ind, acc, p, fill), float(b[bad[0]]), k))
            nt |= (~skip & np.isfinite(a)).sum() >= 2
        return nt


# ------------------------------------------------------------------ C26
class Copies(Check):
    ID = "C26"
    HOW = ["copy", "deepcopy", "pickle2", "pickle5"]
    RULE = ("an indicator on a drawn history and row labels, some of its lines asked (or none), then copied (shallow, deep, "
            "or through a pickle of a drawn protocol), possibly a copy of a copy; after deep copies and pickles the "
            "caller overwrites the original series. Every line of the copy and of the original must equal, bit for bit, "
            "that of a fresh object on the original data. Non-trivial: the line has two different values.")
    ASSUMPTIONS = CLEAN

    def tasks(self, tier):
        n = 130 if tier == "quick" else 1500
        return [(i.cls, n) for i in I.values()]

    def generate(self, draw, task):
        n = gen.length(draw, 1, 120, long_ok=False) if draw(st.integers(0, 4)) else draw(st.integers(1, 8))
        data, meta = gen.history(draw, n)
        accs = sorted(I[task].lines)
        return {"ind": task, "data": data, "meta": meta, "params": gen.params(draw, I[task], n), "fill": draw(st.booleans()),
                "index": draw(st.sampled_from(gen.INDEX_KINDS)),
                "before": draw(st.lists(st.sampled_from(accs), max_size=3)),
                "hows": draw(st.lists(st.sampled_from(self.HOW), min_size=1, max_size=3)),
                "spoil": draw(st.booleans()), "order": draw(st.integers(0, 1))}

    def run(self, case, stats):
        note(stats, case)
        ind = I[case["ind"]]
        p, fill = case["params"], case["fill"]
        ser = gen.frame(case["data"], case["index"])
        fresh = {a: line(make(ind, gen.frame(case["data"], case["index"]), p, fill), a) for a in ind.lines}
        o = make(ind, ser, p, fill)
        for a in case["before"]:
            if a in ind.lines:
                line(o, a)
        objs = [("the original", o)]
        for h in case["hows"]:
            stats.c["how:" + h] += 1
            src = objs[-1][1]
            if h == "copy":
                c = lib(copy.copy, src)
            elif h == "deepcopy":
                c = lib(copy.deepcopy, src)
            else:
                c = lib(pickle.loads, lib(pickle.dumps, src, protocol=int(h[-1])))
            objs.append(("a %s of %s" % (h, objs[-1][0]), c))
        if case["spoil"] and any(h != "copy" for h in case["hows"]):
            # the caller moves on to other data; deep copies and pickles own theirs
            first = next(j for j, h in enumerate(case["hows"]) if h != "copy") + 1
            objs = objs[first:]
            for s in ser.values():
                s.iloc[:] = 1.5
        vary = False
        for what, obj in (objs[::-1] if case["order"] else objs):
            for a in ind.lines:
                got = line(obj, a)
                w = identical(fresh[a], got)
                if w:
                    raise Violation("%s, asked from %s%s: %s" % (
                        where(ind, a, p, fill), what, " after the caller's series were overwritten" if case["spoil"] else "", w))
                v = arr(got)
                v = v[np.isfinite(v)]
                vary |= len(v) > 1 and v.min() < v.max()
        return bool(vary)


# ------------------------------------------------------------------ C27
class Parameters(PerIndicator):
    ID = "C27"
    Q, T = 420, 8000
    RULE = ("a history, parameters and a second setting; lines of the library are compared with other lines of the library: "
            "scaled multipliers and weights, swapped windows, offsets and displacement as shifts, parameters that must "
            "not matter, window 1, nested windows, and the same quantity reached through another indicator (also by "
            "feeding one indicator's line to another). Non-trivial: a relation was decided on at least two defined bars.")
    CLS = ["BollingerBands", "KeltnerChannel", "DonchianChannel", "CCIIndicator", "UltimateOscillator", "MACD",
           "PercentagePriceOscillator", "PercentageVolumeOscillator", "AwesomeOscillatorIndicator",
           "StochasticOscillator", "StochRSIIndicator", "IchimokuIndicator", "KSTIndicator", "MassIndex",
           "TRIXIndicator", "DPOIndicator", "TSIIndicator", "ROCIndicator", "EMAIndicator", "SMAIndicator",
           "WMAIndicator", "VolumePriceTrendIndicator", "EaseOfMovementIndicator", "PSARIndicator", "UlcerIndex",
           "AroonIndicator", "AverageTrueRange", "STCIndicator", "ChaikinMoneyFlowIndicator",
           "VolumeWeightedAveragePrice", "WilliamsRIndicator", "DailyReturnIndicator", "VortexIndicator",
           "MFIIndicator", "RSIIndicator", "KAMAIndicator", "OnBalanceVolumeIndicator", "ADXIndicator",
           "NegativeVolumeIndexIndicator"]

    def tasks(self, tier):
        n = self.Q if tier == "quick" else self.T
        return [(c, n) for c in self.CLS]

    def more(self, draw, ind, c):
        c["fill"] = "both"
        n = len(c["data"]["close"])
        p = c["params"]
        if "dropnans" in p:
            p["dropnans"] = False
        if "offset" in p:
            p["offset"] = abs(p["offset"])
        c["q"] = {"w": draw(st.integers(1, 12)), "w2": draw(st.integers(1, max(1, n))),
                  "m": draw(st.sampled_from([0.25, 0.5, 1, 1.5, 2, 3, 4, 7, 10])), "b": draw(st.booleans())}

    def one(self, ind, p, fill, case, stats):
        cx = Ctx(case["data"], fill, floor=True)
        x, out, refs = cx.lines(ind.cls, p)
        # cells that were filled (or that rounding decides) are no operands
        nt = False
        for got, want, what in getattr(self, "r_" + ind.cls)(cx, p, x, out, fill, case["q"]):
            e = np.where(np.isinf(got.e) | np.isinf(want.e), np.inf, got.e + want.e)
            bad, strong, weak = iv.compare(got.v.astype(float), S(want.v, e))
            stats.c["relation cells decided"] += strong
            stats.c["relation cells skipped"] += weak
            stats.c["%s: %s" % (ind.cls, what)] += int((~np.isinf(e) & np.isfinite(want.v.astype(float))).any())
            if bad is not None:
                raise Violation("%s%s fillna=%s bar %d of %d: %s: %r against %r (+-%.3g)" % (
                    ind.cls, fmt(p), fill, bad, cx.n, what, float(got.v[bad]), float(want.v[bad]), iv.K * float(e[bad])))
            nt |= bool((~np.isinf(e) & np.isfinite(want.v.astype(float))).sum() >= 2)
        return nt

    @staticmethod
    def _same(cx, cls, p, x, q, names, what):
        """changing the given parameters must not matter for these lines"""
        y = cx.lines(cls, q)[0]
        for a in names:
            yield x[a], y[a], what

    def r_BollingerBands(self, cx, p, x, out, fill, q):
        d, d2 = float(p["window_dev"]), float(q["m"])
        y = cx.lines("BollingerBands", dict(p, window_dev=q["m"]))[0]
        b = "bollinger_"
        yield x[b + "mavg"], y[b + "mavg"], "middle band under another deviation"
        if d:
            yield ((x[b + "hband"] - x[b + "mavg"]) * d2, (y[b + "hband"] - y[b + "mavg"]) * d,
                   "upper band width is proportional to the deviation count")
            yield ((x[b + "mavg"] - x[b + "lband"]) * d2, (y[b + "mavg"] - y[b + "lband"]) * d,
                   "lower band width is proportional to the deviation count")
            yield x[b + "wband"] * d2, y[b + "wband"] * d, "width line is proportional to the deviation count"

    def r_KeltnerChannel(self, cx, p, x, out, fill, q):
        k = "keltner_channel_"
        bands = [k + "mband", k + "hband", k + "lband", k + "wband", k + "pband"]
        if p["original_version"]:
            yield from self._same(cx, "KeltnerChannel", p, x, dict(p, multiplier=q["m"], window_atr=q["w"]), bands,
                                  "the original version has no multiplier and no ATR window")
            tp = cx.ser["high"] + cx.ser["low"] + cx.ser["close"]
            one = cx.lines("KeltnerChannel", dict(p, window=1))[0]
            h, l, c = cx.d["high"], cx.d["low"], cx.d["close"]
            yield one[k + "hband"], (4.0 * h - 2.0 * l + c) / 3.0, "upper band over one bar"
            yield one[k + "lband"], (4.0 * l - 2.0 * h + c) / 3.0, "lower band over one bar"
        else:
            m, m2 = float(p["multiplier"]), float(q["m"])
            y = cx.lines("KeltnerChannel", dict(p, multiplier=q["m"]))[0]
            yield x[k + "mband"], y[k + "mband"], "middle line under another multiplier"
            yield ((x[k + "hband"] - x[k + "mband"]) * m2, (y[k + "hband"] - y[k + "mband"]) * m,
                   "upper width is proportional to the multiplier")
            yield ((x[k + "mband"] - x[k + "lband"]) * m2, (y[k + "mband"] - y[k + "lband"]) * m,
                   "lower width is proportional to the multiplier")
            yield from self._same(cx, "KeltnerChannel", p, x, dict(p, window_atr=q["w"]), [k + "mband"],
                                  "the middle line has no ATR window")

    def r_DonchianChannel(self, cx, p, x, out, fill, q):
        y = cx.lines("DonchianChannel", dict(p, offset=0))[0]
        if not fill:
            for a in x:
                yield x[a], y[a].shift(p["offset"]), "%s with an offset is the shifted plain one" % a
        w = p["window"] + q["w"]
        z = cx.lines("DonchianChannel", {"window": w, "offset": 0})[0]
        c = "donchian_channel_"
        if not fill:
            for a, s in ((c + "hband", 1), (c + "lband", -1)):
                d = (z[a] - y[a]) * float(s)
                neg = d.lt(0) == 1
                yield (S(np.where(neg, 1.0, 0.0), np.where(np.isnan(d.v) | d.und, np.inf, 0.0)), iv.const(0.0, cx.n),
                       "%s of a longer window lies outside" % a)

    def r_CCIIndicator(self, cx, p, x, out, fill, q):
        k = float(p["constant"])
        y = cx.lines("CCIIndicator", dict(p, constant=k * q["m"]))[0]
        yield x["cci"], y["cci"] * float(q["m"]), "the reading is inversely proportional to the constant"

    def r_UltimateOscillator(self, cx, p, x, out, fill, q):
        y = cx.lines("UltimateOscillator", dict(p, **{"weight%d" % i: p["weight%d" % i] * q["m"] for i in (1, 2, 3)}))[0]
        u = "ultimate_oscillator"
        yield x[u], y[u], "only the ratio of the weights matters"
        r = {}
        for i, j in ((1, 2), (2, 3), (3, 1)):
            r["window%d" % i] = p["window%d" % j]
            r["weight%d" % i] = p["weight%d" % j]
        y = cx.lines("UltimateOscillator", r)[0]
        yield x[u], y[u], "the three window/weight pairs are interchangeable"
        y = cx.lines("UltimateOscillator", dict(p, window2=p["window1"], window3=p["window1"], weight1=1.0, weight2=1.0,
                                                weight3=1.0))[0]
        z = cx.lines("UltimateOscillator", dict(p, window2=p["window1"], window3=p["window1"]))[0]
        yield z[u], y[u], "equal windows leave the weights without effect"

    def _osc(self, cx, cls, p, x, a, hist, q, swap):
        yield from self._same(cx, cls, p, x, dict(p, window_sign=q["w"]), [a], "the line has no signal window")
        y = cx.lines(cls, dict(p, window_sign=1))[0]
        yield y[a + "_signal"], y[a], "signal over one bar is the line"
        yield y[hist], 0.0 * y[a], "histogram over one bar is zero"
        y = cx.lines(cls, dict(p, window_fast=p["window_slow"]))[0]
        yield y[a], 0.0 * y[a], "equal windows give a zero line"
        if swap:
            y = cx.lines(cls, dict(p, window_fast=p["window_slow"], window_slow=p["window_fast"]))[0]
            for b in (a, a + "_signal", hist):
                yield y[b], -x[b], "swapped windows change the sign"

    def r_MACD(self, cx, p, x, out, fill, q):
        yield from self._osc(cx, "MACD", p, x, "macd", "macd_diff", q, True)
        # MACD relates to the percentage version through the slow average
        o = cx.lines("PercentagePriceOscillator", p)[0]
        s = cx.lines("EMAIndicator", {"window": p["window_slow"]})[0]["ema_indicator"]
        yield x["macd"] * 100.0, o["ppo"] * s, "PPO x slow EMA"

    def r_PercentagePriceOscillator(self, cx, p, x, out, fill, q):
        yield from self._osc(cx, "PercentagePriceOscillator", p, x, "ppo", "ppo_hist", q, False)

    def r_PercentageVolumeOscillator(self, cx, p, x, out, fill, q):
        yield from self._osc(cx, "PercentageVolumeOscillator", p, x, "pvo", "pvo_hist", q, False)
        o = cx.lines("PercentagePriceOscillator", p, {"close": cx.ser["volume"]}, {"close": cx.d["volume"]})[0]
        for a in ("", "_signal", "_hist"):
            yield x["pvo" + a], o["ppo" + a], "the price oscillator fed with the volume"

    def r_AwesomeOscillatorIndicator(self, cx, p, x, out, fill, q):
        a = "awesome_oscillator"
        y = cx.lines("AwesomeOscillatorIndicator", {"window1": p["window2"], "window2": p["window1"]})[0]
        yield y[a], -x[a], "swapped windows change the sign"
        y = cx.lines("AwesomeOscillatorIndicator", {"window1": p["window2"], "window2": p["window2"]})[0]
        yield y[a], 0.0 * y[a], "equal windows give a zero line"

    def r_StochasticOscillator(self, cx, p, x, out, fill, q):
        yield from self._same(cx, "StochasticOscillator", p, x, dict(p, smooth_window=q["w"]), ["stoch"],
                              "%K has no smoothing window")
        y = cx.lines("StochasticOscillator", dict(p, smooth_window=1))[0]
        yield y["stoch_signal"], y["stoch"], "signal over one bar is the line"
        s = cx.lines("SMAIndicator", {"window": p["smooth_window"]}, {"close": out["stoch"]}, {"close": x["stoch"]})[0]
        if not fill:
            yield x["stoch_signal"], s["sma_indicator"], "the library's SMA fed with %K"
        z = cx.lines("DonchianChannel", {"window": p["window"], "offset": 0})[0]
        hi, lo = z["donchian_channel_hband"], z["donchian_channel_lband"]
        yield x["stoch"], 100.0 * ((cx.d["close"] - lo) / (hi - lo)), "the position inside the Donchian channel"

    def r_WilliamsRIndicator(self, cx, p, x, out, fill, q):
        z = cx.lines("DonchianChannel", {"window": p["lbp"], "offset": 0})[0]
        hi, lo = z["donchian_channel_hband"], z["donchian_channel_lband"]
        yield x["williams_r"], -100.0 * ((hi - cx.d["close"]) / (hi - lo)), "the distance from the Donchian top"

    def r_StochRSIIndicator(self, cx, p, x, out, fill, q):
        yield from self._same(cx, "StochRSIIndicator", p, x, dict(p, smooth1=q["w"], smooth2=q["w2"]), ["stochrsi"],
                              "the raw line has no smoothing windows")
        yield from self._same(cx, "StochRSIIndicator", p, x, dict(p, smooth2=q["w2"]), ["stochrsi_k"],
                              "%K has no second smoothing window")
        y = cx.lines("StochRSIIndicator", dict(p, smooth1=1, smooth2=1))[0]
        yield y["stochrsi_k"], y["stochrsi"], "smoothing over one bar"
        yield y["stochrsi_d"], y["stochrsi"], "smoothing over one bar"
        if not fill:
            r, ro, _ = cx.lines("RSIIndicator", {"window": p["window"]})
            s = cx.lines("StochasticOscillator", {"window": p["window"], "smooth_window": 3},
                         {k: ro["rsi"] for k in ("high", "low", "close")}, {k: r["rsi"] for k in ("high", "low", "close")})[0]
            yield x["stochrsi"] * 100.0, s["stoch"], "the stochastic fed with the reported RSI"

    def r_IchimokuIndicator(self, cx, p, x, out, fill, q):
        i = "ichimoku_"
        yield from self._same(cx, "IchimokuIndicator", p, x,
                              dict(p, window2=q["w"], window3=q["w2"], visual=q["b"]), [i + "conversion_line"],
                              "the conversion line has only the first window")
        yield from self._same(cx, "IchimokuIndicator", p, x,
                              dict(p, window1=q["w"], window3=q["w2"], visual=q["b"]), [i + "base_line"],
                              "the base line has only the second window")
        yield from self._same(cx, "IchimokuIndicator", p, x, dict(p, window1=q["w"]), [i + "b"],
                              "leading span B has no first window")
        yield from self._same(cx, "IchimokuIndicator", p, x, dict(p, window3=q["w2"]), [i + "a"],
                              "leading span A has no third window")
        for k, a in (("window1", "conversion_line"), ("window2", "base_line")) + (
                () if p["visual"] else (("window3", "b"),)):
            z = cx.lines("DonchianChannel", {"window": p[k], "offset": 0})[0]["donchian_channel_mband"]
            yield x[i + a], z, "the middle of the same-window Donchian channel"
        if not fill:
            y = cx.lines("IchimokuIndicator", dict(p, visual=False))[0]
            z = cx.lines("IchimokuIndicator", dict(p, visual=True))[0]
            for a in ("a", "b"):
                yield z[i + a], y[i + a].shift(p["window2"]), "displacement shifts by the second window"

    def r_KSTIndicator(self, cx, p, x, out, fill, q):
        yield from self._same(cx, "KSTIndicator", p, x, dict(p, nsig=q["w"]), ["kst"], "the line has no signal window")
        y = cx.lines("KSTIndicator", dict(p, nsig=1))[0]
        yield y["kst_sig"], y["kst"], "signal over one bar is the line"
        if not fill:
            tot = None
            for i in (1, 2, 3, 4):
                r, ro, _ = cx.lines("ROCIndicator", {"window": p["roc%d" % i]})
                s = cx.lines("SMAIndicator", {"window": p["window%d" % i]}, {"close": ro["roc"]}, {"close": r["roc"]})[0]
                t = s["sma_indicator"] * float(i)
                tot = t if tot is None else tot + t
            yield x["kst"], tot, "the weighted sum of the library's averaged ROCs"

    def r_MassIndex(self, cx, p, x, out, fill, q):
        rng, d = cx.ser["high"] - cx.ser["low"], cx.d["high"] - cx.d["low"]
        w = {"window": p["window_fast"]}
        if fill:
            return
        a, ao, _ = cx.lines("EMAIndicator", w, {"close": rng}, {"close": d})
        b = cx.lines("EMAIndicator", w, {"close": ao["ema_indicator"]}, {"close": a["ema_indicator"]})[0]
        r = a["ema_indicator"] / b["ema_indicator"]
        yield x["mass_index"], r.roll(p["window_slow"], p["window_slow"], "sum"), "the summed ratio of the library's EMAs"

    def r_TRIXIndicator(self, cx, p, x, out, fill, q):
        if fill:
            return
        w = {"window": p["window"]}
        ser, d = {"close": cx.ser["close"]}, {"close": cx.d["close"]}
        for _ in range(3):
            e, eo, _ = cx.lines("EMAIndicator", w, ser, d)
            ser, d = {"close": eo["ema_indicator"]}, {"close": e["ema_indicator"]}
        r = cx.lines("ROCIndicator", {"window": 1}, ser, d)[0]["roc"]
        yield x["trix"], r, "the one-bar ROC of the library's EMA applied three times"

    def r_DPOIndicator(self, cx, p, x, out, fill, q):
        s = cx.lines("SMAIndicator", {"window": p["window"]})[0]["sma_indicator"]
        if not fill:
            yield x["dpo"], cx.d["close"].shift(p["window"] // 2 + 1) - s, "the displaced close minus the reported SMA"

    def r_TSIIndicator(self, cx, p, x, out, fill, q):
        if fill:
            return
        m, d = cx.ser["close"].diff(), cx.d["close"].diff()
        two = []
        for s, t in ((m, d), (m.abs(), d.abs())):
            for k in ("window_slow", "window_fast"):
                e, eo, _ = cx.lines("EMAIndicator", {"window": p[k]}, {"close": s}, {"close": t})
                s, t = eo["ema_indicator"], e["ema_indicator"]
            two.append(t)
        yield x["tsi"], 100.0 * (two[0] / two[1]), "the ratio of the library's doubly averaged changes"

    def r_ROCIndicator(self, cx, p, x, out, fill, q):
        y = cx.lines("ROCIndicator", {"window": 1})[0]["roc"]
        yield y, cx.lines("DailyReturnIndicator", {})[0]["daily_return"], "the daily return"
        # two steps compound to one
        a, b = p["window"], q["w"]
        z = cx.lines("ROCIndicator", {"window": b})[0]["roc"]
        both = cx.lines("ROCIndicator", {"window": a + b})[0]["roc"]
        if not fill:
            yield both, x["roc"] + z.shift(a) + x["roc"] * z.shift(a) / 100.0, "two spans compound"

    def _avg(self, cx, cls, acc):
        y = cx.lines(cls, {"window": 1})[0][acc]
        yield y, cx.d["close"], "an average over one bar is the close"

    def r_EMAIndicator(self, cx, p, x, out, fill, q):
        yield from self._avg(cx, "EMAIndicator", "ema_indicator")
        # linear: adding a line to the input adds its average
        g = cx.ser["close"] + cx.ser["high"]
        d = cx.d["close"] + cx.d["high"]
        h = cx.lines("EMAIndicator", p, {"close": cx.ser["high"]}, {"close": cx.d["high"]})[0]["ema_indicator"]
        s = cx.lines("EMAIndicator", p, {"close": g}, {"close": d})[0]["ema_indicator"]
        yield s, x["ema_indicator"] + h, "the average of a sum"

    def _additive(self, cx, cls, acc, p, x):
        g, d = cx.ser["close"] + cx.ser["high"], cx.d["close"] + cx.d["high"]
        h = cx.lines(cls, p, {"close": cx.ser["high"]}, {"close": cx.d["high"]})[0][acc]
        s = cx.lines(cls, p, {"close": g}, {"close": d})[0][acc]
        yield s, x[acc] + h, "the average of a sum"

    def r_SMAIndicator(self, cx, p, x, out, fill, q):
        yield from self._avg(cx, "SMAIndicator", "sma_indicator")
        yield from self._additive(cx, "SMAIndicator", "sma_indicator", p, x)

    def r_WMAIndicator(self, cx, p, x, out, fill, q):
        yield from self._avg(cx, "WMAIndicator", "wma")
        yield from self._additive(cx, "WMAIndicator", "wma", p, x)
        if not fill:
            # the weighted average is the average of the averages over 1..w bars, weighted by their length
            w = p["window"]
            if 1 < w <= 12:
                # from window w-1 to w: every weight of the shorter window moves up by one
                a = cx.lines("WMAIndicator", {"window": w - 1})[0]["wma"]
                s = cx.lines("SMAIndicator", {"window": w})[0]["sma_indicator"]
                yield (x["wma"] * (w * (w + 1) / 2.0), a * (w * (w - 1) / 2.0) + s * float(w),
                       "the next shorter WMA plus the SMA")

    def r_VolumePriceTrendIndicator(self, cx, p, x, out, fill, q):
        v = "volume_price_trend"
        y, yo, _ = cx.lines("VolumePriceTrendIndicator", {"smoothing_factor": None, "dropnans": False})
        z = cx.lines("VolumePriceTrendIndicator", {"smoothing_factor": 1, "dropnans": False})[0]
        yield z[v], y[v], "smoothing over one bar"
        if not fill:
            for sf in (None, p["smoothing_factor"]):
                a = outputs(I["VolumePriceTrendIndicator"], cx.ser, {"smoothing_factor": sf, "dropnans": False}, fill)[v]
                b = outputs(I["VolumePriceTrendIndicator"], cx.ser, {"smoothing_factor": sf, "dropnans": True}, fill)[v]
                w = identical(a.dropna(), b)
                if w:
                    raise Violation("VolumePriceTrendIndicator(smoothing_factor=%r) with missing rows dropped: %s" % (sf, w))

    def r_EaseOfMovementIndicator(self, cx, p, x, out, fill, q):
        yield from self._same(cx, "EaseOfMovementIndicator", p, x, {"window": q["w"]}, ["ease_of_movement"],
                              "the raw line has no window")
        y = cx.lines("EaseOfMovementIndicator", {"window": 1})[0]
        yield y["sma_ease_of_movement"], y["ease_of_movement"], "average over one bar"

    def r_PSARIndicator(self, cx, p, x, out, fill, q):
        far = max(p["max_step"], p["step"]) + p["step"] * (cx.n + 2)
        a = cx.lines("PSARIndicator", {"step": p["step"], "max_step": far})[0]
        b = cx.lines("PSARIndicator", {"step": p["step"], "max_step": far * 2})[0]
        if not fill and far < 1:
            for k in a:
                yield a[k], b[k], "a step limit that is never reached does not matter"

    def r_UlcerIndex(self, cx, p, x, out, fill, q):
        y = cx.lines("UlcerIndex", {"window": 1})[0]["ulcer_index"]
        yield y, 0.0 * cx.d["close"], "the drawdown over one bar"

    def r_AroonIndicator(self, cx, p, x, out, fill, q):
        if fill:
            return
        # up is 100 exactly where the high is a strict new extreme of the span, and each step of 100/w is one bar
        w = float(p["window"])
        for a in ("aroon_up", "aroon_down"):
            k = x[a].v * w / 100
            r = np.abs(k - np.round(k))
            yield (S(r, np.where(np.isnan(r), 0.0, 1e-9 * (1 + w))), S(np.where(np.isnan(r), LD(np.nan), LD(0))),
                   "%s counts whole bars" % a)
        y = cx.lines("AroonIndicator", {"window": p["window"] + q["w"]})[0]
        for a in ("aroon_up", "aroon_down"):
            # bars since the extreme never shrink when the span grows
            d = (100.0 - y[a]) * ((w + q["w"]) / 100) - (100.0 - x[a]) * (w / 100)
            bad = d.v < -1e-6
            yield (S(np.where(bad, 1.0, 0.0), np.where(np.isnan(d.v) | d.und, np.inf, 0.0)), iv.const(0.0, cx.n),
                   "%s: the extreme of a longer span is not more recent" % a)

    def r_AverageTrueRange(self, cx, p, x, out, fill, q):
        y = cx.lines("AverageTrueRange", {"window": 1})[0]["average_true_range"]
        h, l, c = cx.d["high"], cx.d["low"], cx.d["close"].shift(1)
        tr = iv.maximum(h - l, (h - c).abs(), (l - c).abs(), skipna=True)
        yield y, tr, "the true range over one bar"
        if not fill:
            # Wilder: w*ATR = (w-1)*previous ATR + true range
            w, n = p["window"], cx.n
            a = x["average_true_range"]
            on = np.arange(n) >= w
            r = a.shift(1) * float(w - 1) + tr
            yield S(np.where(on, (a * float(w)).v, LD(0)), np.where(on, (a * float(w)).e, 0)), \
                S(np.where(on, r.v, LD(0)), np.where(on, r.e, 0)), "Wilder's step from the previous reading"

    def r_STCIndicator(self, cx, p, x, out, fill, q):
        if fill:
            return
        m, mo, _ = cx.lines("MACD", {"window_slow": p["window_slow"], "window_fast": p["window_fast"], "window_sign": 9})
        s, t = mo["macd"], m["macd"]
        for k in ("smooth1", "smooth2"):
            a, ao, _ = cx.lines("StochasticOscillator", {"window": p["cycle"], "smooth_window": 3},
                                {c: s for c in ("high", "low", "close")}, {c: t for c in ("high", "low", "close")})
            b, bo, _ = cx.lines("EMAIndicator", {"window": p[k]}, {"close": ao["stoch"]}, {"close": a["stoch"]})
            s, t = bo["ema_indicator"], b["ema_indicator"]
        yield x["stc"], t, "the stochastic of the MACD, averaged, twice"

    def r_ChaikinMoneyFlowIndicator(self, cx, p, x, out, fill, q):
        a = cx.lines("AccDistIndexIndicator", {})[0]["acc_dist_index"]
        y = cx.lines("ChaikinMoneyFlowIndicator", {"window": 1})[0]["chaikin_money_flow"]
        n = cx.n
        on = np.arange(n) >= 1
        r = (a - a.shift(1)) / cx.d["volume"]
        if not fill:
            yield S(np.where(on, y.v, LD(0)), np.where(on, y.e, 0)), S(np.where(on, r.v, LD(0)), np.where(on, r.e, 0)), \
                "the step of accumulation/distribution per volume"

    def r_VolumeWeightedAveragePrice(self, cx, p, x, out, fill, q):
        v = "volume_weighted_average_price"
        one = pd.Series(np.full(cx.n, 8.0 * max(1, q["w"])), index=cx.ser["close"].index)
        ser = dict(cx.ser, volume=one)
        d = dict(cx.d, volume=S(np.full(cx.n, LD(8 * max(1, q["w"])))))
        y = cx.lines("VolumeWeightedAveragePrice", p, ser, d)[0][v]
        tp = (cx.ser["high"] + cx.ser["low"] + cx.ser["close"]) / 3.0
        dt = (cx.d["high"] + cx.d["low"] + cx.d["close"]) / 3.0
        s = cx.lines("SMAIndicator", p, {"close": tp}, {"close": dt})[0]["sma_indicator"]
        yield y, s, "with equal volumes, the SMA of the typical price"

    def r_DailyReturnIndicator(self, cx, p, x, out, fill, q):
        g = cx.lines("DailyLogReturnIndicator", {})[0]["daily_log_return"]
        r = 1.0 + x["daily_return"] / 100.0
        yield g, 100.0 * r.log(), "the log return"

    def r_VortexIndicator(self, cx, p, x, out, fill, q):
        if fill:
            return
        h, l, c = cx.d["high"], cx.d["low"], cx.d["close"]
        y = cx.lines("VortexIndicator", {"window": 1})[0]
        tr = cx.lines("AverageTrueRange", {"window": 1})[0]["average_true_range"]
        yield y["vortex_indicator_pos"], (h - l.shift(1)).abs() / tr, "+VM over the true range, one bar"
        yield y["vortex_indicator_neg"], (l - h.shift(1)).abs() / tr, "-VM over the true range, one bar"

    def r_MFIIndicator(self, cx, p, x, out, fill, q):
        if fill:
            return
        y = cx.lines("MFIIndicator", {"window": 1})[0]["money_flow_index"]
        tp = (cx.d["high"] + cx.d["low"] + cx.d["close"]) / 3.0
        ch = tp - tp.shift(1)
        up, dn, pos = ch.gt(0), ch.lt(0), cx.d["volume"].gt(0)
        v = np.where((up == 1) & (pos == 1), LD(100), np.where((dn == 1) & (pos == 1), LD(0), LD(np.nan)))
        e = np.where((up == -1) | (dn == -1) | ((up != 1) & (dn != 1)) | (pos != 1), np.inf, 0.0)
        yield y, S(v, np.where(np.arange(cx.n) < 1, np.inf, e)), "one bar with volume is all up or all down"

    def r_RSIIndicator(self, cx, p, x, out, fill, q):
        y = cx.lines("RSIIndicator", {"window": 1})[0]["rsi"]
        ch = cx.d["close"].diff()
        up, dn = ch.gt(0), ch.lt(0)
        v = np.where(up == 1, LD(100), LD(0))
        yield y, S(v, np.where((up == 1) | (dn == 1), 0.0, np.inf)), "one bar is all up or all down"

    def r_KAMAIndicator(self, cx, p, x, out, fill, q):
        # with equal speeds the efficiency does not matter
        k = float(p["pow1"])
        y = cx.lines("KAMAIndicator", dict(p, pow2=p["pow1"]))[0]["kama"]
        c, n = cx.d["close"], cx.n
        a = (LD(2) / (LD(k) + 1)) ** 2
        s = 0 if fill else p["window"] - 1
        if s < n:
            t = S(c.v[s:], c.e[s:]).ewm(a, 0)
            yield y[s:], t, "equal speeds make it a plain recursive average"

    def r_OnBalanceVolumeIndicator(self, cx, p, x, out, fill, q):
        o = x["on_balance_volume"]
        d = (o - o.shift(1)).abs()
        c = cx.d["close"].diff()
        moved = c.eq(0)
        w = S(np.where(moved == 0, cx.d["volume"].v, LD(0)), np.where((moved == -1) | (np.arange(cx.n) < 1), np.inf, 0.0))
        if not fill:
            yield d, w, "each step is the volume of the bar, or nothing when the close stands still"

    def r_ADXIndicator(self, cx, p, x, out, fill, q):
        if fill:
            return
        y = cx.lines("ADXIndicator", {"window": 1})[0]
        tr = cx.lines("AverageTrueRange", {"window": 1})[0]["average_true_range"]
        h, l = cx.d["high"].diff(), -cx.d["low"].diff()
        up = iv.select((h.gt(l) == 1) & (h.gt(0) == 1), h, 0.0)
        dn = iv.select((l.gt(h) == 1) & (l.gt(0) == 1), l, 0.0)
        unk = (h.gt(l) == -1) | (l.gt(h) == -1) | (h.gt(0) == -1) | (l.gt(0) == -1) | (np.arange(cx.n) < 2)
        for a, m in (("adx_pos", up), ("adx_neg", dn)):
            r = 100.0 * m / tr
            v = np.where(np.isnan(r.v), LD(0), r.v)
            yield y[a], S(v, np.where(unk | r.und, np.inf, r.e)), "directional movement over the true range, one bar"

    def r_NegativeVolumeIndexIndicator(self, cx, p, x, out, fill, q):
        n = cx.n
        nvi = x["negative_volume_index"]
        r = cx.lines("DailyReturnIndicator", {})[0]["daily_return"]
        falls = cx.d["volume"].diff().lt(0)
        k = iv.select(falls, 1.0 + r / 100.0, 1.0)
        on = np.arange(n) >= 1
        w = nvi.shift(1) * k
        if not fill:
            yield S(np.where(on, nvi.v, LD(0)), np.where(on, nvi.e, 0)), S(np.where(on, w.v, LD(0)), np.where(on, w.e, 0)), \
                "it moves by the daily return on falling volume and stands still otherwise"
