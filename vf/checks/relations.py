"""C17: composite lines follow from the other lines the library reports.

Operands are the library's own reported values; the reference model only contributes how
far rounding may have moved each of them (iv.S error terms), so the relation is judged
even where the absolute value would be hard to pin down."""
import numpy as np
import pandas as pd

from .. import gen, iv, spec
from ..core import Violation
from .common import CLEAN, S, arr, floors, fmt, line, make, outputs, ref_lines
from .meta import PerIndicator
from ..iv import LD
from ..refs import mp, typical

I = spec.IND


def operand(g, ref, fill, rows=None):
    """reported values as an error-tracked series; with filling on, cells that had to be filled (or could not be
    decided) are unusable as operands"""
    g = arr(g)
    if g.shape != (len(ref),):
        raise Violation("%r values for %d bars" % (g.shape, len(ref)))
    e = ref.e.copy()
    # the reference calls the cell undetermined, but the reported number itself is a perfectly good operand as long
    # as the composite line is computed from it; keep it undetermined all the same (it may be recomputed)
    if fill:
        e = np.where(np.isfinite(ref.v), e, np.inf)
    return iv.S(g, np.where(np.isnan(g) & ~np.isinf(e), 0.0, e))


class Ctx:
    """library runs and their error terms on one history"""

    def __init__(self, data, fill, floor=False):
        self.data, self.fill, self.floor = data, fill, floor
        self.d = S(data)
        self.ser = gen.frame(data)
        self.n = len(data["close"])

    def lines(self, cls, p, ser=None, d=None):
        ind = I[cls]
        out = outputs(ind, ser or self.ser, p, self.fill)
        refs = ref_lines(ind, d or self.d, p, self.fill, filled=False, floor=self.floor)
        return {a: operand(out[a], refs[a], self.fill) for a in out}, out, refs


def ema(x, w, fill):
    return x.ewm(LD(2) / (LD(w) + 1), mp(fill, w))


def mean(x, w, fill):
    return x.roll(w, mp(fill, w), "mean")


class Composite(PerIndicator):
    ID = "C17"
    Q, T = 900, 15000
    RULE = ("a history and parameters; every composite line of the indicator is recomputed from the lines the library "
            "itself reports (signals, differences, channel widths and percentages, flags, cross-indicator identities) "
            "and compared cell by cell; with filling on only where nothing had to be filled. Non-trivial: some relation "
            "was decided on a bar beyond the warm-up.")
    CLS = ["MACD", "PercentagePriceOscillator", "PercentageVolumeOscillator", "KSTIndicator", "WilliamsRIndicator",
           "StochasticOscillator", "AroonIndicator", "VortexIndicator", "IchimokuIndicator",
           "AwesomeOscillatorIndicator", "StochRSIIndicator", "EaseOfMovementIndicator", "BollingerBands",
           "KeltnerChannel", "DonchianChannel", "PSARIndicator", "ADXIndicator", "VolumePriceTrendIndicator",
           "ForceIndexIndicator", "CumulativeReturnIndicator"]

    def tasks(self, tier):
        n = self.Q if tier == "quick" else self.T
        return [(c, n) for c in self.CLS]

    def more(self, draw, ind, c):
        c["fill"] = "both"
        if "dropnans" in c["params"]:
            c["params"]["dropnans"] = False

    def one(self, ind, p, fill, case, stats):
        cx = Ctx(case["data"], fill)
        x, out, refs = cx.lines(ind.cls, p)
        nt = False
        first = {a: max(0, l.first(p)) for a, l in ind.lines.items()}
        refs = floors(ind, cx.d, dict(refs))
        for acc, want, what in getattr(self, "r_" + ind.cls)(cx, p, x, fill):
            g = arr(out[acc])
            r = refs[acc]
            gap = ~np.isfinite(r.v) | np.isinf(r.e) if fill else np.isinf(r.e)
            e = np.where(gap | np.isinf(want.e), np.inf, want.e + np.where(np.isinf(r.e), 0, r.e))
            bad, strong, weak = iv.compare(g, iv.S(want.v, e))
            stats.c["relation cells decided"] += strong
            stats.c["relation cells skipped"] += weak
            if bad is not None:
                raise Violation("%s.%s%s fillna=%s bar %d of %d: reported %r, but %s gives %r (+-%.3g)" % (
                    ind.cls, acc, fmt(p), fill, bad, cx.n, float(g[bad]), what, float(want.v[bad]),
                    iv.K * float(e[bad])))
            t = slice(first[acc], None)
            nt |= bool((~np.isinf(e[t]) & np.isfinite(g[t])).any())
        return nt

    # ---------------------------------------------------------------- signals and differences
    def _osc(self, cx, p, x, fill, a, src, ratio):
        ser = {"close": cx.ser[src]}
        d = {"close": cx.d[src]}
        f, s = (cx.lines("EMAIndicator", {"window": p[k]}, ser, d)[0]["ema_indicator"]
                for k in ("window_fast", "window_slow"))
        yield a, ((f - s) / s * 100.0 if ratio else f - s), "the reported fast and slow EMAs"
        hist = "macd_diff" if a == "macd" else a + "_hist"
        yield a + "_signal", ema(x[a], p["window_sign"], fill), "the EMA of the reported line"
        yield hist, x[a] - x[a + "_signal"], "line minus signal"

    def r_MACD(self, cx, p, x, fill):
        return self._osc(cx, p, x, fill, "macd", "close", False)

    def r_PercentagePriceOscillator(self, cx, p, x, fill):
        return self._osc(cx, p, x, fill, "ppo", "close", True)

    def r_PercentageVolumeOscillator(self, cx, p, x, fill):
        return self._osc(cx, p, x, fill, "pvo", "volume", True)

    def r_KSTIndicator(self, cx, p, x, fill):
        yield "kst_sig", mean(x["kst"], p["nsig"], fill), "the mean of the reported line"
        yield "kst_diff", x["kst"] - x["kst_sig"], "line minus signal"

    def r_StochasticOscillator(self, cx, p, x, fill):
        yield "stoch_signal", mean(x["stoch"], p["smooth_window"], fill), "the mean of the reported line"

    def r_WilliamsRIndicator(self, cx, p, x, fill):
        k = cx.lines("StochasticOscillator", {"window": p["lbp"], "smooth_window": 3})[0]["stoch"]
        yield "williams_r", k - 100.0, "the same-window stochastic minus 100"

    def r_AroonIndicator(self, cx, p, x, fill):
        yield "aroon_indicator", x["aroon_up"] - x["aroon_down"], "up minus down"

    def r_VortexIndicator(self, cx, p, x, fill):
        yield "vortex_indicator_diff", x["vortex_indicator_pos"] - x["vortex_indicator_neg"], "+VI minus -VI"

    def r_IchimokuIndicator(self, cx, p, x, fill):
        a = 0.5 * (x["ichimoku_conversion_line"] + x["ichimoku_base_line"])
        yield "ichimoku_a", (a.shift(p["window2"]) if p["visual"] else a), "the mean of conversion and base line"

    def r_AwesomeOscillatorIndicator(self, cx, p, x, fill):
        mid = 0.5 * (cx.d["high"] + cx.d["low"])
        ser = {"close": (cx.ser["high"] + cx.ser["low"]) * 0.5}
        a, b = (cx.lines("SMAIndicator", {"window": p[k]}, ser, {"close": mid})[0]["sma_indicator"]
                for k in ("window1", "window2"))
        yield "awesome_oscillator", a - b, "the two reported SMAs of the mid price"

    def r_StochRSIIndicator(self, cx, p, x, fill):
        w = p["window"]
        r = cx.lines("RSIIndicator", {"window": w})[0]["rsi"]
        lo, hi = r.roll(w, w, "min"), r.roll(w, w, "max")
        yield "stochrsi", (r - lo) / (hi - lo), "the stochastic transform of the reported RSI"
        yield "stochrsi_k", x["stochrsi"].roll(p["smooth1"], p["smooth1"], "mean"), "the mean of the reported line"
        yield "stochrsi_d", x["stochrsi_k"].roll(p["smooth2"], p["smooth2"], "mean"), "the mean of the reported %K"

    def r_EaseOfMovementIndicator(self, cx, p, x, fill):
        yield "sma_ease_of_movement", mean(x["ease_of_movement"], p["window"], fill), "the mean of the raw line"

    def r_VolumePriceTrendIndicator(self, cx, p, x, fill):
        if p["smoothing_factor"]:
            raw = cx.lines("VolumePriceTrendIndicator", {"smoothing_factor": None, "dropnans": False})[0]
            yield "volume_price_trend", mean(raw["volume_price_trend"], p["smoothing_factor"], fill), \
                "the mean of the plain line"

    def r_ForceIndexIndicator(self, cx, p, x, fill):
        raw = cx.lines("ForceIndexIndicator", {"window": 1})[0]["force_index"]
        yield "force_index", ema(raw, p["window"], fill), "the EMA of the one-bar force index"

    def r_CumulativeReturnIndicator(self, cx, p, x, fill):
        r = cx.lines("DailyReturnIndicator", {})[0]["daily_return"]
        g = np.cumprod(np.where(np.isnan(r.v), 1, 1 + r.v / 100))
        with np.errstate(all="ignore"):
            rel = np.where(np.isnan(r.v), 0, r.e / 100 + 4 * iv.U * (1 + np.abs(r.v) / 100)) / np.abs(
                np.where(np.isnan(r.v), 1, 1 + r.v / 100))
            e = (np.abs(g) * (np.cumsum(rel) + 4 * iv.U) * 100).astype(float)
        e = np.where(np.isfinite(e), e, np.inf)
        if not fill:
            yield "cumulative_return", iv.S((g - 1) * 100, e), "compounding the daily returns"

    # ---------------------------------------------------------------- channels
    @staticmethod
    def _flag(c, band, above):
        """1 where the close is strictly outside the reported band; undecided only within rounding of the band"""
        v = band.v
        tol = 16 * iv.U * np.abs(np.where(np.isfinite(v), v, 0)).astype(float)
        b = iv.S(v, np.where(np.isinf(band.e), np.inf, np.where(band.e == 0, 0.0, tol)))
        r = c.gt(b) if above else c.lt(b)
        return iv.S(np.where(r == 1, 1.0, 0.0), np.where(r == -1, np.inf, 0.0))

    def _channel(self, cx, x, pre, hf, lf, mid=True):
        c = cx.d["close"]
        hi, lo, m = x[pre + "hband"], x[pre + "lband"], x[pre + ("mavg" if pre == "bollinger_" else "mband")]
        if mid:
            yield pre + "wband", 100.0 * ((hi - lo) / m), "the reported bands"
        p = (c - lo) / (hi - lo)
        z = hi.eq(lo)
        p = iv.S(np.where(z == 1, LD(np.nan), p.v), np.where(z == 1, 0.0, np.where(z == -1, np.inf, p.e)))
        if pre == "keltner_channel_":
            # the Keltner percentage of a zero-width channel is the plain quotient
            q = (c - lo) / (hi - lo)
            p = q
        yield pre + "pband", p, "the reported bands and the close"
        if hf:
            yield hf, self._flag(c, hi, True), "the close and the reported upper band"
            yield lf, self._flag(c, lo, False), "the close and the reported lower band"

    def r_BollingerBands(self, cx, p, x, fill):
        yield from self._channel(cx, x, "bollinger_", "bollinger_hband_indicator", "bollinger_lband_indicator")
        yield "bollinger_mavg", 0.5 * (x["bollinger_hband"] + x["bollinger_lband"]), "the mean of the reported bands"
        s = cx.lines("SMAIndicator", {"window": p["window"]})[0]["sma_indicator"]
        yield "bollinger_mavg", s, "the reported SMA"

    def r_KeltnerChannel(self, cx, p, x, fill):
        yield from self._channel(cx, x, "keltner_channel_", "keltner_channel_hband_indicator",
                                 "keltner_channel_lband_indicator")
        if p["original_version"]:
            tp = (cx.ser["high"] + cx.ser["low"] + cx.ser["close"]) / 3.0
            m = cx.lines("SMAIndicator", {"window": p["window"]}, {"close": tp}, {"close": typical(cx.d)})[0]
            yield "keltner_channel_mband", m["sma_indicator"], "the reported SMA of the typical price"
        else:
            m = cx.lines("EMAIndicator", {"window": p["window"]})[0]["ema_indicator"]
            a = cx.lines("AverageTrueRange", {"window": p["window_atr"]})[0]["average_true_range"]
            yield "keltner_channel_mband", m, "the reported EMA"
            yield "keltner_channel_hband", m + a * p["multiplier"], "the reported EMA plus multiplier x ATR"
            yield "keltner_channel_lband", m - a * p["multiplier"], "the reported EMA minus multiplier x ATR"

    def r_DonchianChannel(self, cx, p, x, fill):
        o = p["offset"]
        hi, lo = x["donchian_channel_hband"], x["donchian_channel_lband"]
        yield "donchian_channel_mband", 0.5 * (hi + lo), "the mean of the reported bands"
        s = cx.lines("SMAIndicator", {"window": p["window"]})[0]["sma_indicator"]
        yield "donchian_channel_wband", 100.0 * ((hi - lo) / s.shift(o)), "the reported bands and SMA"
        c = cx.d["close"].shift(o)
        yield "donchian_channel_pband", (c - lo) / (hi - lo), "the reported bands and the close"

    # ---------------------------------------------------------------- step-by-step lines
    def r_ADXIndicator(self, cx, p, x, fill):
        w, n = p["window"], cx.n
        a, b = x["adx_pos"], x["adx_neg"]
        tot = a + b
        dx = iv.select(tot.eq(0), 0.0, 100.0 * ((a - b) / tot).abs())
        v, e = np.zeros(n, LD), np.zeros(n)
        if n >= 2 * w:
            s = dx.v[w:2 * w].sum() / w
            se = float(dx.e[w:2 * w].sum()) / w + 8 * iv.U * float(abs(s))
            v[2 * w - 1], e[2 * w - 1] = s, se
            for t in range(2 * w, n):
                s = dx.v[t] if w == 1 else (s * (w - 1) + dx.v[t]) / w
                se = float(dx.e[t]) if w == 1 else (se * (w - 1) + float(dx.e[t])) / w + 6 * iv.U * float(abs(s)) + 1e-322
                v[t], e[t] = s, se
        yield "adx", iv.S(v, np.where(np.isnan(e), np.inf, e)), "the Wilder average of DX from the reported +DI, -DI"

    def r_PSARIndicator(self, cx, p, x, fill):
        if fill:
            return
        n = cx.n
        s, up, dn = x["psar"], x["psar_up"], x["psar_down"]
        live = np.arange(n) >= 2
        for a, o, b in (("psar_up", up, dn), ("psar_down", dn, up)):
            on = live & np.isnan(b.v)
            yield a, iv.S(np.where(on, s.v, LD(np.nan)), np.where(np.isinf(s.e), np.inf, 0.0)), \
                "the reported SAR and the other line"
            here = ~np.isnan(o.v)
            first = here & ~np.concatenate([[False], here[:-1]])
            yield a + "_indicator", iv.S(first.astype(float), np.where(np.isinf(s.e), np.inf, 0.0)), \
                "where the reported line begins"
