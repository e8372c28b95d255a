"""C30 only price differences count for difference-based lines; the last bar is answered in the right direction when
its close (C31), its range (C32) or its volume (C33) is larger."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, iv, spec
from ..core import Violation
from .common import outputs, ref_lines
from .meta import PerIndicator, arr, same, tolerance, where

I = spec.IND


# ------------------------------------------------------------------ C30
class Level(PerIndicator):
    ID = "C30"
    Q, T = 200, 4000
    RULE = ("a history on a dyadic grid and the same history with one exactly representable constant added to every "
            "price (down to zero, across zero, wholly negative, or far up); each difference-based line must stay the "
            "same, each price-level line must move by that constant. Non-trivial: a value beyond the warm-up was compared.")
    ASSUMPTIONS = ["the moved history may have prices of any sign, as spreads and differentials do",
                   "cells that float64 rounding alone can decide are counted as undetermined and not judged"]
    # lines that stay as they are
    STAY = {"rsi", "tsi", "ultimate_oscillator", "stoch", "stoch_signal", "awesome_oscillator", "williams_r", "stochrsi",
            "stochrsi_k", "stochrsi_d", "aroon_up", "aroon_down", "aroon_indicator", "macd", "macd_signal", "macd_diff",
            "mass_index", "dpo", "cci", "adx", "adx_pos", "adx_neg", "vortex_indicator_pos", "vortex_indicator_neg",
            "vortex_indicator_diff", "psar_up_indicator", "psar_down_indicator", "stc", "average_true_range",
            "bollinger_pband", "bollinger_hband_indicator", "bollinger_lband_indicator", "keltner_channel_pband",
            "keltner_channel_hband_indicator", "keltner_channel_lband_indicator", "donchian_channel_pband",
            "acc_dist_index", "on_balance_volume", "chaikin_money_flow", "force_index", "ease_of_movement",
            "sma_ease_of_movement"}
    # lines that move along
    MOVE = {"kama", "ema_indicator", "sma_indicator", "wma", "ichimoku_conversion_line", "ichimoku_base_line", "ichimoku_a",
            "ichimoku_b", "psar", "psar_up", "psar_down", "bollinger_mavg", "bollinger_hband", "bollinger_lband",
            "keltner_channel_mband", "keltner_channel_hband", "keltner_channel_lband", "donchian_channel_hband",
            "donchian_channel_lband", "donchian_channel_mband", "volume_weighted_average_price"}

    def tasks(self, tier):
        n = self.Q if tier == "quick" else self.T
        return [(i.cls, n) for i in I.values() if set(i.lines) & (self.STAY | self.MOVE)]

    def hist(self, draw, ind):
        return {"unit": draw(st.sampled_from(["grid16", "grid16", "grid256", "int"])), "exact": True}

    def more(self, draw, ind, c):
        super().more(draw, ind, c)
        d = c["data"]
        lo, hi = min(d["low"]), max(d["high"])
        one = gen.UNITS[c["meta"]["unit"]]
        k = draw(st.integers(0, 8))
        at = d["close"][draw(st.integers(0, len(d["close"]) - 1))]
        if k < 2:
            K = -at                 # some close becomes exactly zero
        elif k == 2:
            K = -lo
        elif k == 3:
            K = -hi
        elif k == 4:
            K = -(hi + lo)
        elif k == 5:
            K = one * 2.0 ** draw(st.integers(0, 26))
        elif k == 6:
            K = one * draw(st.integers(-3000, 3000))
        elif k == 7:
            K = -lo + one           # the cheapest price is one tick
        else:
            K = -2 * hi
        c["shift"] = float(K)

    def one(self, ind, p, fill, case, stats):
        data, K = case["data"], case["shift"]
        n = len(data["close"])
        two = {k: list(v) if k == "volume" else [x + K for x in v] for k, v in data.items()}
        A = outputs(ind, gen.frame(data), p, fill)
        B = outputs(ind, gen.frame(two), p, fill)
        ra, rb = (ref_lines(ind, x, p, fill, filled=False) for x in (data, two))
        stats.c["below zero" if K + min(data["low"]) < 0 else "at zero" if K + min(data["low"]) == 0 else "above zero"] += 1
        nt = False
        for acc, ln in ind.lines.items():
            if acc not in self.STAY and acc not in self.MOVE:
                continue
            a, b = arr(A[acc]), arr(B[acc])
            if len(a) != n or len(b) != n:
                raise Violation("%s: result is not row-aligned" % where(ind, acc, p, fill))
            tol = tolerance(ra[acc]) + tolerance(rb[acc])
            skip = ~np.isfinite(tol)
            f = K if acc in self.MOVE else 0.0
            if fill:
                # a filled cell repeats another one: judge the defined cells
                skip = skip | ~np.isfinite(ra[acc].v) | ~np.isfinite(rb[acc].v)
            with np.errstate(all="ignore"):
                want = a + f
            if ln.ph is not None and f:
                skip = skip | (np.arange(n) < ln.first(p))
            i = same(want, b, np.where(skip, 0, tol + 8 * iv.U * abs(f)), skip)
            if i is not None:
                raise Violation("%s: bar %d is %r; with %r added to every price it is %r, expected %r" % (
                    where(ind, acc, p, fill), i, float(a[i]), K, float(b[i]), float(want[i])))
            t = slice(max(0, ln.first(p)), None)
            nt |= bool((np.isfinite(a[t]) & ~skip[t]).any())
        return nt and K != 0


# ------------------------------------------------------------------ C31
def _macd(p):
    s = np.sign(p["window_slow"] - p["window_fast"])
    return int(s)


class Direction(PerIndicator):
    ID = "C31"
    Q, T = 500, 9000
    RULE = ("a history and the same with a higher last close (still within the last bar's range where the line uses "
            "highs and lows); no line may answer on the last bar in the wrong direction. Non-trivial: a line changed.")
    # accessor -> direction, or function of the parameters giving it
    SIGN = {a: 1 for a in (
        "rsi tsi ultimate_oscillator stoch stoch_signal williams_r roc stochrsi stochrsi_k stochrsi_d sma_indicator "
        "ema_indicator wma kst kst_sig kst_diff trix cci bollinger_mavg bollinger_pband bollinger_hband_indicator "
        "keltner_channel_mband keltner_channel_pband keltner_channel_hband_indicator donchian_channel_pband acc_dist_index "
        "on_balance_volume chaikin_money_flow force_index volume_price_trend negative_volume_index "
        "volume_weighted_average_price daily_return daily_log_return cumulative_return").split()}
    SIGN.update({a: -1 for a in "dpo bollinger_lband_indicator keltner_channel_lband_indicator ulcer_index".split()})
    SIGN.update({"macd": _macd, "macd_signal": _macd, "macd_diff": _macd})

    def tasks(self, tier):
        n = self.Q if tier == "quick" else self.T
        return [(i.cls, n) for i in I.values() if set(i.lines) & set(self.SIGN)]

    def more(self, draw, ind, c):
        super().more(draw, ind, c)
        p = c["params"]
        if draw(st.integers(0, 4)):
            # short histories do
            m = draw(st.integers(1, 70))
            c["data"] = {k: v[-m:] for k, v in c["data"].items()}
        d = c["data"]
        n = len(d["close"])
        for name, _, kind in ind.params:
            if kind == "w" and p[name] > n // 3 and draw(st.integers(0, 3)):
                p[name] = draw(st.integers(1, max(1, n // 3)))
            elif kind == "w" and draw(st.integers(0, 3)) == 0:
                p[name] = draw(st.integers(max(1, n // 2), n))
        if "dropnans" in p:
            p["dropnans"] = False
        if "offset" in p:
            p["offset"] = abs(p["offset"])
        # the last bar: room above its close, perhaps apart from the bars before
        prev = d["close"][-2] if n > 1 else d["close"][-1]
        if draw(st.integers(0, 2)) == 0 and n > 1:
            m = prev * draw(st.sampled_from([0.2, 0.5, 0.9, 1.0, 1.0, 1.1, 1.5, 1.6, 2.0, 3.0, 8.0]))
            w = draw(st.sampled_from([0.0, 1e-6, 0.01, 0.3, 1.0]))
            d["low"][-1], d["high"][-1] = m, m * (1 + w)
            d["close"][-1] = d["open"][-1] = m
        w = draw(st.sampled_from([0.0, 0.001, 0.01, 0.05, 0.5, 1.2, 2.0, 4.0, 12.0, 40.0]))
        hi = max(d["high"][-1], d["close"][-1] * (1 + w))
        d["high"][-1] = hi
        if draw(st.integers(0, 3)) == 0:
            d["close"][-1] = d["low"][-1]
            d["open"][-1] = min(max(d["open"][-1], d["low"][-1]), hi)
        elif draw(st.integers(0, 4)) == 0 and d["low"][-1] <= prev <= hi:
            d["close"][-1] = prev
        elif draw(st.booleans()):
            d["close"][-1] = min(hi, d["low"][-1] + draw(st.sampled_from([0.25, 0.5, 0.9])) * (hi - d["low"][-1]))
        f = draw(st.sampled_from([1.0, 1.0, 1.0, 0.5, 0.25, 0.03, 1e-6]))
        lo = d["close"][-1]
        c["close"] = hi if f == 1.0 else min(hi, lo + f * (hi - lo))
        if n > 1 and "volume" in ind.ins and draw(st.integers(0, 2)) == 0:
            d["volume"][-1] = d["volume"][-2] * draw(st.sampled_from([0.5, 1.0, 2.0]))

    def one(self, ind, p, fill, case, stats):
        data = case["data"]
        n = len(data["close"])
        x = case["close"]
        if not data["close"][-1] < x <= data["high"][-1]:
            return False
        two = dict(data, close=data["close"][:-1] + [x])
        A = outputs(ind, gen.frame(data), p, fill)
        B = outputs(ind, gen.frame(two), p, fill)
        ra, rb = (ref_lines(ind, d, p, fill, filled=False) for d in (data, two))
        nt = False
        for acc, ln in ind.lines.items():
            s = self.SIGN.get(acc, 0)
            s = s(p) if callable(s) else s
            if not s:
                continue
            a, b = arr(A[acc]), arr(B[acc])
            if len(a) != n or len(b) != n:
                raise Violation("%s: result is not row-aligned" % where(ind, acc, p, fill))
            t = (tolerance(ra[acc]) + tolerance(rb[acc]))[-1]
            if not (np.isfinite(t) and np.isfinite(ra[acc].v[-1]) and np.isfinite(rb[acc].v[-1])):
                continue
            if n <= ln.first(p):
                continue
            u, v = float(a[-1]), float(b[-1])
            if not s * (v - u) >= -t:
                raise Violation("%s: the last bar is %r, but %r when its close is %r instead of %r" % (
                    where(ind, acc, p, fill), u, v, x, data["close"][-1]))
            nt |= abs(v - u) > t
        return nt


class OneBar(PerIndicator):
    """two histories that differ in one number of the last bar; the last readings are compared"""

    def shape(self, draw, ind, c):
        p = c["params"]
        if draw(st.integers(0, 4)):
            m = draw(st.integers(1, 70))        # short histories do
            c["data"] = {k: list(v[-m:]) for k, v in c["data"].items()}
        else:
            c["data"] = {k: list(v) for k, v in c["data"].items()}
        d = c["data"]
        n = len(d["close"])
        for name, _, kind in ind.params:
            if kind == "w" and p[name] > n // 3 and draw(st.integers(0, 3)):
                p[name] = draw(st.integers(1, max(1, n // 3)))
            elif kind == "w" and draw(st.integers(0, 3)) == 0:
                p[name] = draw(st.integers(max(1, n // 2), n))
        if "dropnans" in p:
            p["dropnans"] = False
        if "offset" in p:
            p["offset"] = abs(p["offset"])
        if n > 1 and draw(st.integers(0, 2)) == 0:
            # the last bar apart from the bars before, or exactly where the previous one ended
            m = d["close"][-2] * draw(st.sampled_from([0.2, 0.5, 0.9, 1.0, 1.0, 1.1, 1.5, 2.0, 3.0, 8.0]))
            w = draw(st.sampled_from([0.0, 1e-6, 0.01, 0.3, 0.9]))
            v = draw(st.sampled_from([0.0, 1e-6, 0.01, 0.3, 1.0]))
            d["low"][-1], d["high"][-1] = m * (1 - w), m * (1 + v)
            d["close"][-1] = draw(st.sampled_from([m, d["low"][-1], d["high"][-1]]))
            d["open"][-1] = m
        return d, n

    def judge(self, ind, p, fill, data, two, signs, words, stats):
        n = len(data["close"])
        A = outputs(ind, gen.frame(data), p, fill)
        B = outputs(ind, gen.frame(two), p, fill)
        ra, rb = (ref_lines(ind, d, p, fill, filled=False) for d in (data, two))
        nt = False
        for acc, ln in ind.lines.items():
            if acc not in signs:
                continue
            a, b = arr(A[acc]), arr(B[acc])
            if len(a) != n or len(b) != n:
                raise Violation("%s: result is not row-aligned" % where(ind, acc, p, fill))
            t = (tolerance(ra[acc]) + tolerance(rb[acc]))[-1]
            if not (np.isfinite(t) and np.isfinite(ra[acc].v[-1]) and np.isfinite(rb[acc].v[-1])):
                stats.c["last readings not decided"] += 1
                continue
            if n <= ln.first(p):
                continue
            u, v = float(a[-1]), float(b[-1])
            if np.isnan(u) or np.isnan(v):
                raise Violation("%s: the last bar is %r, and %r with %s" % (where(ind, acc, p, fill), u, v, words))
            s = signs[acc]
            s = s(p, data, u) if callable(s) else s
            if s is None:
                continue
            if not (s * (v - u) >= -t if s else abs(v - u) <= t):
                raise Violation("%s: the last bar is %r, but %r with %s" % (where(ind, acc, p, fill), u, v, words))
            stats.c["last readings compared"] += 1
            nt |= abs(v - u) > t
        return nt


# ------------------------------------------------------------------ C32
def _ao(p, d, u):
    return int(np.sign(p["window2"] - p["window1"]))


def _less(f):
    return lambda p, d, u: -f(p, d, u)


class Range(OneBar):
    ID = "C32"
    Q, T = 400, 8000
    RULE = ("a history and the same whose last bar reached higher, or lower (close unchanged); no line may answer on "
            "the last bar in the wrong direction, and lines that do not see that extreme must not move. Non-trivial: a "
            "line changed.")
    K = "keltner_channel_"
    D = "donchian_channel_"
    UP = dict({a: -1 for a in (
        "ultimate_oscillator stoch stoch_signal williams_r adx_neg vortex_indicator_neg psar_down_indicator "
        "acc_dist_index chaikin_money_flow " + K + "hband_indicator " + K + "lband_indicator " + D + "pband").split()},
        **{a: 1 for a in (
            "ichimoku_conversion_line ichimoku_base_line ichimoku_a ichimoku_b cci mass_index aroon_up aroon_indicator "
            "psar_up_indicator average_true_range volume_weighted_average_price " + K + "hband " + K + "wband "
            + D + "hband " + D + "mband " + D + "wband").split()})
    UP.update({"awesome_oscillator": _ao, "aroon_down": 0, D + "lband": 0})
    DOWN = dict({a: 1 for a in (
        "ultimate_oscillator stoch stoch_signal williams_r mass_index aroon_down psar_down_indicator average_true_range "
        "acc_dist_index chaikin_money_flow " + K + "hband " + K + "wband " + D + "wband " + D + "pband").split()},
        **{a: -1 for a in (
            "ichimoku_conversion_line ichimoku_base_line ichimoku_a ichimoku_b cci adx_pos aroon_indicator "
            "vortex_indicator_pos psar_up_indicator volume_weighted_average_price " + K + "lband " + K + "hband_indicator "
            + K + "lband_indicator " + D + "lband " + D + "mband").split()})
    DOWN.update({"awesome_oscillator": _less(_ao), "aroon_up": 0, D + "hband": 0})

    def tasks(self, tier):
        n = self.Q if tier == "quick" else self.T
        return [(i.cls, n) for i in I.values() if set(i.lines) & set(self.UP)]

    def more(self, draw, ind, c):
        super().more(draw, ind, c)
        d, n = self.shape(draw, ind, c)
        c["side"] = k = draw(st.sampled_from(["high", "low"]))
        old = d[k][-1]
        w = draw(st.sampled_from([1e-6, 0.001, 0.01, 0.05, 0.3, 0.7, 0.99, 2.0, 12.0]))
        seen = [x for key in ("high", "low", "close") for x in d[key][-30:] if (x > old if k == "high" else x < old)]
        if seen and draw(st.integers(0, 2)) == 0:
            c["to"] = draw(st.sampled_from(sorted(set(seen))))
        elif k == "high":
            c["to"] = old * (1 + w)
        else:
            c["to"] = old * (1 - min(w, 0.99))

    def one(self, ind, p, fill, case, stats):
        data, k, x = case["data"], case["side"], case["to"]
        if not (x > data["high"][-1] if k == "high" else 0 < x < data["low"][-1]):
            return False
        two = dict(data, **{k: data[k][:-1] + [x]})
        signs = dict(self.UP if k == "high" else self.DOWN)
        if ind.cls == "KeltnerChannel":
            orig = p["original_version"]
            b = self.K + "mband"
            signs[b] = (1 if k == "high" else -1) if orig else 0
            # the far band of the original version follows the opposite extreme twice
            far = self.K + ("lband" if k == "high" else "hband")
            signs[far] = -1 if k == "high" else 1
            if not orig and p["multiplier"] < 0:
                return False
        return self.judge(ind, p, fill, data, two, signs,
                          "the last %s at %r instead of %r" % (k, x, data[k][-1]), stats)


# ------------------------------------------------------------------ C33
def _move(p, d, u):
    c = d["close"]
    return int(np.sign(c[-1] - c[-2])) if len(c) > 1 else None


def _clv(d):
    h, l, c = (iv.LD(d[k][-1]) for k in ("high", "low", "close"))
    return 0.0 if h == l else float(((c - l) - (h - c)) / (h - l))


def _eom(p, d, u):
    if len(d["close"]) < 2:
        return None
    a, b = (iv.LD(d["high"][-i]) + iv.LD(d["low"][-i]) for i in (1, 2))
    return None if a != b and abs(a - b) <= 1e-12 * abs(b) else -int(np.sign(a - b))


def _towards(f):
    def sign(p, d, u):
        x = f(d)
        return None if abs(x - u) <= 1e-9 * max(abs(x), abs(u), 1e-300) else int(np.sign(x - u))
    return sign


class Volume(OneBar):
    ID = "C33"
    Q, T = 600, 12000
    RULE = ("a history and the same with a larger last volume; each volume line must answer on the last bar in the "
            "direction of that bar (its price change, its close location, its typical price). Non-trivial: a line changed.")
    SIGN = {
        "acc_dist_index": lambda p, d, u: int(np.sign(_clv(d))),
        "on_balance_volume": lambda p, d, u: _move(p, d, u) if len(d["close"]) > 1 else 1,
        "chaikin_money_flow": _towards(_clv),
        "force_index": _move,
        "volume_price_trend": _move,
        "negative_volume_index": lambda p, d, u: -_move(p, d, u) if len(d["close"]) > 1 else 0,
        "volume_weighted_average_price": _towards(lambda d: (d["high"][-1] + d["low"][-1] + d["close"][-1]) / 3.0),
        "ease_of_movement": _eom,
        "sma_ease_of_movement": _eom,
        "money_flow_index": None,
    }

    def tasks(self, tier):
        n = self.Q if tier == "quick" else self.T
        return [(i.cls, n) for i in I.values() if set(i.lines) & set(self.SIGN)]

    def more(self, draw, ind, c):
        super().more(draw, ind, c)
        d, n = self.shape(draw, ind, c)
        if n > 1 and draw(st.integers(0, 2)) == 0:
            d["volume"][-1] = d["volume"][-2] * draw(st.sampled_from([0.0, 0.5, 1.0, 2.0]))
        old = d["volume"][-1]
        seen = [x for x in d["volume"][-30:] if x > old]
        if seen and draw(st.booleans()):
            c["to"] = draw(st.sampled_from(sorted(set(seen))))
        else:
            c["to"] = old * draw(st.sampled_from([1.001, 1.1, 1.5, 2.0, 10.0, 1e4])) + draw(st.sampled_from([0.0, 1.0]))

    def one(self, ind, p, fill, case, stats):
        data, x = case["data"], case["to"]
        if not x > data["volume"][-1]:
            return False
        two = dict(data, volume=data["volume"][:-1] + [x])
        signs = dict(self.SIGN)

        def mfi(p, d, u):
            if len(d["close"]) < 2:
                return None
            a, b = (sum(iv.LD(d[k][-i]) for k in ("high", "low", "close")) for i in (1, 2))
            if abs(a - b) <= 1e-12 * abs(b) and a != b:
                return None
            return int(np.sign(a - b))
        signs["money_flow_index"] = mfi
        if data["volume"][-1] == 0:
            signs.pop("sma_ease_of_movement")       # a bar without volume does not enter the average
        return self.judge(ind, p, fill, data, two, signs, "the last volume at %r instead of %r" % (
            x, data["volume"][-1]), stats)
