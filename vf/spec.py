"""What the library documents: indicators, their arguments and defaults, the lines
they report, the neutral value each line is filled with, its series name, its units,
its range, and the first bar at which it can be known.  A committed table - it is not
read from the code under test.
"""
from . import refs


class Line:
    def __init__(self, acc, fill, name, first, dim=(0, 0), rng=None, ph=None, mem=None, mirror=None):
        self.acc = acc          # method name
        self.fill = fill        # number | "back" | "close" | None (never has gaps)
        self.name = name        # series name, formatted with the parameters
        self.first = first      # params -> first bar with a value (filling off)
        self.dim = dim          # (power of price, power of volume) ; None: not homogeneous
        self.rng = rng          # (low, high) or None
        self.ph = ph            # placeholder reported before `first` (None: missing)
        self.mem = mem          # params -> number of older bars that can matter (None: unbounded)
        self.mirror = mirror    # (accessor, a, b): line of the mirrored history = a + b*line ; a may be "K"


class Ind:
    def __init__(self, mod, cls, ins, params, lines, ref, order=None, prop=None):
        self.mod, self.cls, self.ins = mod, cls, ins.split()
        self.params = params                      # [(name, default, kind)]
        self.lines = {l.acc: l for l in lines}
        self.ref = ref
        self.order = order or (self.ins + [p[0] for p in params] + ["fillna"])
        self.prop = prop

    def defaults(self):
        return {n: d for n, d, _ in self.params}

    def make(self, ta, data, p, fill):
        c = getattr(getattr(ta, self.mod), self.cls)
        kw = {k: data[k] for k in self.ins}
        return c(**kw, **p, fillna=fill)


def W(n):
    return lambda p: p[n] - 1


def L(*a, **k):
    return Line(*a, **k)


P01 = (0, 100)
IND = {}


def _add(i):
    IND[i.cls] = i


# ------------------------------------------------------------------ momentum
M = "momentum"
_add(Ind(M, "RSIIndicator", "close", [("window", 14, "w")],
     [L("rsi", 50, "rsi", W("window"), rng=P01, mirror=("rsi", 100, -1))], refs.rsi, prop="C01"))
_add(Ind(M, "TSIIndicator", "close", [("window_slow", 25, "w"), ("window_fast", 13, "w")],
     [L("tsi", 0, "tsi", lambda p: p["window_slow"] + p["window_fast"] - 1, rng=(-100, 100), mirror=("tsi", 0, -1))],
     refs.tsi, prop="C01"))
_add(Ind(M, "UltimateOscillator", "high low close",
     [("window1", 7, "w"), ("window2", 14, "w"), ("window3", 28, "w"),
      ("weight1", 4.0, "weight"), ("weight2", 2.0, "weight"), ("weight3", 1.0, "weight")],
     [L("ultimate_oscillator", 50, "uo", lambda p: max(p["window1"], p["window2"], p["window3"]), rng=P01,
        mem=lambda p: max(p["window1"], p["window2"], p["window3"]))], refs.uo, prop="C01"))
_add(Ind(M, "StochasticOscillator", "high low close", [("window", 14, "w"), ("smooth_window", 3, "w")],
     [L("stoch", 50, "stoch_k", W("window"), rng=P01, mem=W("window"), mirror=("stoch", 100, -1)),
      L("stoch_signal", 50, "stoch_k_signal", lambda p: p["window"] + p["smooth_window"] - 2, rng=P01,
        mem=lambda p: p["window"] + p["smooth_window"] - 2, mirror=("stoch_signal", 100, -1))],
     refs.stoch, prop="C01"))
_add(Ind(M, "KAMAIndicator", "close", [("window", 10, "w"), ("pow1", 2, "pow"), ("pow2", 30, "pow")],
     [L("kama", "close", "kama", W("window"), dim=(1, 0), mirror=("kama", "K", -1))], refs.kama, prop="C01"))
_add(Ind(M, "ROCIndicator", "close", [("window", 12, "w")],
     [L("roc", 0, "roc", lambda p: p["window"], mem=lambda p: p["window"])], refs.roc, prop="C01"))
_add(Ind(M, "AwesomeOscillatorIndicator", "high low", [("window1", 5, "w"), ("window2", 34, "w")],
     [L("awesome_oscillator", 0, "ao", lambda p: max(p["window1"], p["window2"]) - 1, dim=(1, 0),
        mem=lambda p: max(p["window1"], p["window2"]) - 1, mirror=("awesome_oscillator", 0, -1))],
     refs.ao, prop="C01"))
_add(Ind(M, "WilliamsRIndicator", "high low close", [("lbp", 14, "w")],
     [L("williams_r", -50, "wr", W("lbp"), rng=(-100, 0), mem=W("lbp"), mirror=("williams_r", -100, -1))],
     refs.williams, prop="C01"))
_add(Ind(M, "StochRSIIndicator", "close", [("window", 14, "w"), ("smooth1", 3, "w"), ("smooth2", 3, "w")],
     [L("stochrsi", 0, "stochrsi", lambda p: 2 * p["window"] - 2, rng=(0, 1), mirror=("stochrsi", 1, -1)),
      L("stochrsi_k", 0, "stochrsi_k", lambda p: 2 * p["window"] + p["smooth1"] - 3, rng=(0, 1),
        mirror=("stochrsi_k", 1, -1)),
      L("stochrsi_d", 0, "stochrsi_d", lambda p: 2 * p["window"] + p["smooth1"] + p["smooth2"] - 4, rng=(0, 1),
        mirror=("stochrsi_d", 1, -1))], refs.stochrsi, prop="C01"))


def _po(cls, inp, a, nm, ref):
    base = lambda p: max(p["window_fast"], p["window_slow"]) - 1
    sig = lambda p: base(p) + p["window_sign"] - 1
    _add(Ind(M, cls, inp, [("window_slow", 26, "w"), ("window_fast", 12, "w"), ("window_sign", 9, "w")],
         [L(a, 0, nm + "_{window_fast}_{window_slow}", base),
          L(a + "_signal", 0, nm + "_sign_{window_fast}_{window_slow}", sig),
          L(a + "_hist", 0, nm + "_hist_{window_fast}_{window_slow}", sig)], ref, prop="C01"))


_po("PercentagePriceOscillator", "close", "ppo", "PPO", refs.ppo)
_po("PercentageVolumeOscillator", "volume", "pvo", "PVO", refs.pvo)

# ------------------------------------------------------------------ trend
T = "trend"
_add(Ind(T, "AroonIndicator", "high low", [("window", 25, "w")],
     [L("aroon_up", 0, "aroon_up_{window}", lambda p: p["window"], rng=P01, mem=lambda p: p["window"],
        mirror=("aroon_down", 0, 1)),
      L("aroon_down", 0, "aroon_down_{window}", lambda p: p["window"], rng=P01, mem=lambda p: p["window"],
        mirror=("aroon_up", 0, 1)),
      L("aroon_indicator", 0, "aroon_ind_{window}", lambda p: p["window"], rng=(-100, 100),
        mem=lambda p: p["window"], mirror=("aroon_indicator", 0, -1))], refs.aroon, prop="C03"))
_f = lambda p: max(p["window_fast"], p["window_slow"]) - 1
_g = lambda p: _f(p) + p["window_sign"] - 1
_add(Ind(T, "MACD", "close", [("window_slow", 26, "w"), ("window_fast", 12, "w"), ("window_sign", 9, "w")],
     [L("macd", 0, "MACD_{window_fast}_{window_slow}", _f, dim=(1, 0), mirror=("macd", 0, -1)),
      L("macd_signal", 0, "MACD_sign_{window_fast}_{window_slow}", _g, dim=(1, 0), mirror=("macd_signal", 0, -1)),
      L("macd_diff", 0, "MACD_diff_{window_fast}_{window_slow}", _g, dim=(1, 0), mirror=("macd_diff", 0, -1))],
     refs.macd, prop="C02"))
_add(Ind(T, "EMAIndicator", "close", [("window", 14, "w")],
     [L("ema_indicator", None, "ema_{window}", W("window"), dim=(1, 0), mirror=("ema_indicator", "K", -1))],
     refs.f_ema, prop="C02"))
_add(Ind(T, "SMAIndicator", "close", [("window", None, "w")],
     [L("sma_indicator", None, "sma_{window}", W("window"), dim=(1, 0), mem=W("window"),
        mirror=("sma_indicator", "K", -1))], refs.f_sma, prop="C02"))
_add(Ind(T, "WMAIndicator", "close", [("window", 9, "w")],
     [L("wma", 0, "wma_{window}", W("window"), dim=(1, 0), mem=W("window"), mirror=("wma", "K", -1))],
     refs.wma, prop="C02"))
_add(Ind(T, "TRIXIndicator", "close", [("window", 15, "w")],
     [L("trix", 0, "trix_{window}", lambda p: 3 * (p["window"] - 1) + 1)], refs.trix, prop="C02"))
_add(Ind(T, "MassIndex", "high low", [("window_fast", 9, "w"), ("window_slow", 25, "w")],
     [L("mass_index", 0, "mass_index_{window_fast}_{window_slow}",
        lambda p: 2 * (p["window_fast"] - 1) + p["window_slow"] - 1, rng=(0, None), mirror=("mass_index", 0, 1))],
     refs.mass, prop="C02"))


def _vis(f):
    return lambda p: f(p) + (p["window2"] if p["visual"] else 0)


_add(Ind(T, "IchimokuIndicator", "high low",
     [("window1", 9, "w"), ("window2", 26, "w"), ("window3", 52, "w"), ("visual", False, "bool")],
     [L("ichimoku_conversion_line", "back", "ichimoku_conv_{window1}_{window2}", W("window1"), dim=(1, 0),
        mem=W("window1"), mirror=("ichimoku_conversion_line", "K", -1)),
      L("ichimoku_base_line", "back", "ichimoku_base_{window1}_{window2}", W("window2"), dim=(1, 0),
        mem=W("window2"), mirror=("ichimoku_base_line", "K", -1)),
      L("ichimoku_a", "back", "ichimoku_a_{window1}_{window2}",
        _vis(lambda p: max(p["window1"], p["window2"]) - 1), dim=(1, 0),
        mem=_vis(lambda p: max(p["window1"], p["window2"]) - 1), mirror=("ichimoku_a", "K", -1)),
      L("ichimoku_b", "back", "ichimoku_b_{window1}_{window2}", _vis(W("window3")), dim=(1, 0),
        mem=_vis(W("window3")), mirror=("ichimoku_b", "K", -1))], refs.ichimoku, prop="C02"))
_k = lambda p: max(p["roc%d" % i] + p["window%d" % i] - 1 for i in (1, 2, 3, 4))
_ks = lambda p: _k(p) + p["nsig"] - 1
_add(Ind(T, "KSTIndicator", "close",
     [("roc1", 10, "w"), ("roc2", 15, "w"), ("roc3", 20, "w"), ("roc4", 30, "w"),
      ("window1", 10, "w"), ("window2", 10, "w"), ("window3", 10, "w"), ("window4", 15, "w"), ("nsig", 9, "w")],
     [L("kst", 0, "kst", _k, mem=_k), L("kst_sig", 0, "kst_sig", _ks, mem=_ks),
      L("kst_diff", 0, "kst_diff", _ks, mem=_ks)], refs.kst, prop="C02"))
_d = lambda p: max(p["window"] // 2 + 1, p["window"] - 1)
_add(Ind(T, "DPOIndicator", "close", [("window", 20, "w")],
     [L("dpo", 0, "dpo_{window}", _d, dim=(1, 0), mem=_d, mirror=("dpo", 0, -1))], refs.dpo, prop="C02"))
_add(Ind(T, "CCIIndicator", "high low close", [("window", 20, "w"), ("constant", 0.015, "const")],
     [L("cci", 0, "cci", W("window"), mem=W("window"), mirror=("cci", 0, -1))], refs.cci, prop="C02"))
_add(Ind(T, "ADXIndicator", "high low close", [("window", 14, "w")],
     [L("adx", 20, "adx", lambda p: 2 * p["window"] - 1, rng=P01, ph=0, mirror=("adx", 0, 1)),
      L("adx_pos", 20, "adx_pos", lambda p: p["window"], rng=P01, ph=0, mirror=("adx_neg", 0, 1)),
      L("adx_neg", 20, "adx_neg", lambda p: p["window"], rng=P01, ph=0, mirror=("adx_pos", 0, 1))],
     refs.adx, prop="C03"))
_add(Ind(T, "VortexIndicator", "high low close", [("window", 14, "w")],
     [L("vortex_indicator_pos", 1, "vip", lambda p: p["window"], rng=(0, None), mem=lambda p: p["window"],
        mirror=("vortex_indicator_neg", 0, 1)),
      L("vortex_indicator_neg", 1, "vin", lambda p: p["window"], rng=(0, None), mem=lambda p: p["window"],
        mirror=("vortex_indicator_pos", 0, 1)),
      L("vortex_indicator_diff", 0, "vid", lambda p: p["window"], mem=lambda p: p["window"],
        mirror=("vortex_indicator_diff", 0, -1))], refs.vortex, prop="C03"))
_add(Ind(T, "PSARIndicator", "high low close", [("step", 0.02, "step"), ("max_step", 0.2, "maxstep")],
     [L("psar", "back", "psar", lambda p: 0, dim=(1, 0)),
      L("psar_up", "back", "psarup", lambda p: 2, dim=(1, 0)),
      L("psar_down", "back", "psardown", lambda p: 2, dim=(1, 0)),
      L("psar_up_indicator", 0, "psariup", lambda p: 0, rng=(0, 1)),
      L("psar_down_indicator", 0, "psaridown", lambda p: 0, rng=(0, 1))], refs.psar, prop="C03"))
_st = lambda p: (max(p["window_fast"], p["window_slow"]) - 1 + 2 * (p["cycle"] - 1)
                 + p["smooth1"] - 1 + p["smooth2"] - 1)
_add(Ind(T, "STCIndicator", "close",
     [("window_slow", 50, "w"), ("window_fast", 23, "w"), ("cycle", 10, "w"), ("smooth1", 3, "w"), ("smooth2", 3, "w")],
     [L("stc", 0, "stc", _st, rng=P01, mirror=("stc", 100, -1))], refs.stc, prop="C02"))

# ------------------------------------------------------------------ volatility
V = "volatility"
_add(Ind(V, "AverageTrueRange", "high low close", [("window", 14, "w")],
     [L("average_true_range", 0, "atr", W("window"), dim=(1, 0), rng=(0, None), ph=0,
        mirror=("average_true_range", 0, 1))], refs.atr, prop="C04"))
_b = W("window")
_add(Ind(V, "BollingerBands", "close", [("window", 20, "w"), ("window_dev", 2, "dev")],
     [L("bollinger_mavg", "back", "mavg", _b, dim=(1, 0), mem=_b, mirror=("bollinger_mavg", "K", -1)),
      L("bollinger_hband", "back", "hband", _b, dim=(1, 0), mem=_b, mirror=("bollinger_lband", "K", -1)),
      L("bollinger_lband", "back", "lband", _b, dim=(1, 0), mem=_b, mirror=("bollinger_hband", "K", -1)),
      L("bollinger_wband", 0, "bbiwband", _b, mem=_b),
      L("bollinger_pband", 0, "bbipband", _b, mem=_b, mirror=("bollinger_pband", 1, -1)),
      L("bollinger_hband_indicator", 0, "bbihband", _b, rng=(0, 1), ph=0, mem=_b,
        mirror=("bollinger_lband_indicator", 0, 1)),
      L("bollinger_lband_indicator", 0, "bbilband", _b, rng=(0, 1), ph=0, mem=_b,
        mirror=("bollinger_hband_indicator", 0, 1))], refs.bollinger, prop="C04"))
_km = lambda p: (p["window"] - 1) if p["original_version"] else None
_add(Ind(V, "KeltnerChannel", "high low close",
     [("window", 20, "w"), ("window_atr", 10, "w"), ("original_version", True, "bool"), ("multiplier", 2, "dev")],
     [L("keltner_channel_mband", "back", "mavg", _b, dim=(1, 0), mem=_km, mirror=("keltner_channel_mband", "K", -1)),
      L("keltner_channel_hband", "back", "kc_hband", _b, dim=(1, 0), mem=_km,
        mirror=("keltner_channel_lband", "K", -1)),
      L("keltner_channel_lband", "back", "kc_lband", _b, dim=(1, 0), mem=_km,
        mirror=("keltner_channel_hband", "K", -1)),
      L("keltner_channel_wband", 0, "bbiwband", _b, mem=_km),
      L("keltner_channel_pband", 0, "bbipband", _b, mem=_km, mirror=("keltner_channel_pband", 1, -1)),
      L("keltner_channel_hband_indicator", 0, "dcihband", _b, rng=(0, 1), ph=0, mem=_km,
        mirror=("keltner_channel_lband_indicator", 0, 1)),
      L("keltner_channel_lband_indicator", 0, "dcilband", _b, rng=(0, 1), ph=0, mem=_km,
        mirror=("keltner_channel_hband_indicator", 0, 1))],
     refs.keltner, order=["high", "low", "close", "window", "window_atr", "fillna", "original_version", "multiplier"],
     prop="C04"))
_o = lambda p: p["window"] - 1 + p["offset"]
_add(Ind(V, "DonchianChannel", "high low close", [("window", 20, "w"), ("offset", 0, "offset")],
     [L("donchian_channel_hband", "back", "dchband", _o, dim=(1, 0), mem=_o,
        mirror=("donchian_channel_lband", "K", -1)),
      L("donchian_channel_lband", "back", "dclband", _o, dim=(1, 0), mem=_o,
        mirror=("donchian_channel_hband", "K", -1)),
      L("donchian_channel_mband", "back", "dcmband", _o, dim=(1, 0), mem=_o,
        mirror=("donchian_channel_mband", "K", -1)),
      L("donchian_channel_wband", 0, "dcwband", _o, mem=_o),
      L("donchian_channel_pband", 0, "dcpband", _o, mem=_o, mirror=("donchian_channel_pband", 1, -1))],
     refs.donchian, prop="C04"))
_add(Ind(V, "UlcerIndex", "close", [("window", 14, "w")],
     [L("ulcer_index", 0, "ui", _b, rng=(0, None), mem=lambda p: 2 * (p["window"] - 1))], refs.ulcer, prop="C04"))

# ------------------------------------------------------------------ volume
Q = "volume"
Z = lambda p: 0
ONE = lambda p: 1
_add(Ind(Q, "AccDistIndexIndicator", "high low close volume", [],
     [L("acc_dist_index", 0, "adi", Z, dim=(0, 1), mirror=("acc_dist_index", 0, -1))], refs.adi, prop="C05"))
_add(Ind(Q, "OnBalanceVolumeIndicator", "close volume", [],
     [L("on_balance_volume", 0, "obv", Z, dim=(0, 1))], refs.obv, prop="C05"))
_add(Ind(Q, "ChaikinMoneyFlowIndicator", "high low close volume", [("window", 20, "w")],
     [L("chaikin_money_flow", 0, "cmf", _b, rng=(-1, 1), mem=_b, mirror=("chaikin_money_flow", 0, -1))],
     refs.cmf, prop="C05"))
_add(Ind(Q, "ForceIndexIndicator", "close volume", [("window", 13, "w")],
     [L("force_index", 0, "fi_{window}", lambda p: p["window"], dim=(1, 1), mirror=("force_index", 0, -1))],
     refs.fi, prop="C05"))
_add(Ind(Q, "EaseOfMovementIndicator", "high low volume", [("window", 14, "w")],
     [L("ease_of_movement", 0, "eom_{window}", ONE, dim=(2, -1), mem=ONE, mirror=("ease_of_movement", 0, -1)),
      L("sma_ease_of_movement", 0, "sma_eom_{window}", lambda p: p["window"], dim=(2, -1),
        mem=lambda p: p["window"], mirror=("sma_ease_of_movement", 0, -1))], refs.eom, prop="C05"))
_add(Ind(Q, "VolumePriceTrendIndicator", "close volume",
     [("smoothing_factor", None, "smooth"), ("dropnans", False, "bool")],
     [L("volume_price_trend", 0, "vpt", lambda p: p["smoothing_factor"] or 1, dim=(0, 1))], refs.vpt,
     order=["close", "volume", "fillna", "smoothing_factor", "dropnans"], prop="C05"))
_add(Ind(Q, "NegativeVolumeIndexIndicator", "close volume", [],
     [L("negative_volume_index", 1000, "nvi", Z, rng=(0, None))], refs.nvi, prop="C05"))
_add(Ind(Q, "MFIIndicator", "high low close volume", [("window", 14, "w")],
     [L("money_flow_index", 50, "mfi_{window}", _b, rng=P01, mem=lambda p: p["window"])], refs.mfi, prop="C05"))
_add(Ind(Q, "VolumeWeightedAveragePrice", "high low close volume", [("window", 14, "w")],
     [L("volume_weighted_average_price", 0, "vwap_{window}", _b, dim=(1, 0), mem=_b,
        mirror=("volume_weighted_average_price", "K", -1))], refs.vwap, prop="C05"))

# ------------------------------------------------------------------ others
O = "others"
_add(Ind(O, "DailyReturnIndicator", "close", [], [L("daily_return", 0, "d_ret", ONE, mem=ONE)], refs.dr, prop="C06"))
_add(Ind(O, "DailyLogReturnIndicator", "close", [], [L("daily_log_return", 0, "d_logret", ONE, mem=ONE)],
     refs.dlr, prop="C06"))
_add(Ind(O, "CumulativeReturnIndicator", "close", [], [L("cumulative_return", "back", "cum_ret", Z)],
     refs.cr, prop="C06"))

# lines that report a number (never a gap) at the very first bar whatever the settings need no warm-up check beyond it


# ------------------------------------------------------------------ function forms
# name: (class, accessor, [(argument, default)...] in documented order, {class parameter: value fixed by the function})
FUN = {}


def _fun(mod, name, cls, acc, args, fixed=None):
    FUN[name] = (mod, cls, acc, args, fixed or {})


def _auto(name, cls, acc=None, over=None, drop=(), fixed=None):
    i = IND[cls]
    dflt = i.defaults()
    dflt.update(over or {})
    args = []
    for a in i.order:
        if a in drop:
            continue
        if a in i.ins:
            args.append((a, None))
        elif a == "fillna":
            args.append((a, False))
        else:
            args.append((a, dflt[a]))
    _fun(i.mod, name, cls, acc or name, args, fixed)


for n, c in [("rsi", "RSIIndicator"), ("tsi", "TSIIndicator"), ("ultimate_oscillator", "UltimateOscillator"),
             ("stoch", "StochasticOscillator"), ("stoch_signal", "StochasticOscillator"),
             ("williams_r", "WilliamsRIndicator"), ("awesome_oscillator", "AwesomeOscillatorIndicator"),
             ("kama", "KAMAIndicator"), ("roc", "ROCIndicator"), ("stochrsi", "StochRSIIndicator"),
             ("stochrsi_k", "StochRSIIndicator"), ("stochrsi_d", "StochRSIIndicator"),
             ("ppo", "PercentagePriceOscillator"), ("ppo_signal", "PercentagePriceOscillator"),
             ("ppo_hist", "PercentagePriceOscillator"), ("pvo", "PercentageVolumeOscillator"),
             ("pvo_signal", "PercentageVolumeOscillator"), ("pvo_hist", "PercentageVolumeOscillator"),
             ("macd_signal", "MACD"), ("macd_diff", "MACD"), ("adx", "ADXIndicator"), ("adx_pos", "ADXIndicator"),
             ("adx_neg", "ADXIndicator"), ("vortex_indicator_pos", "VortexIndicator"),
             ("vortex_indicator_neg", "VortexIndicator"), ("trix", "TRIXIndicator"), ("mass_index", "MassIndex"),
             ("cci", "CCIIndicator"), ("dpo", "DPOIndicator"), ("stc", "STCIndicator"), ("kst_sig", "KSTIndicator"),
             ("aroon_up", "AroonIndicator"), ("aroon_down", "AroonIndicator"), ("psar_up", "PSARIndicator"),
             ("psar_down", "PSARIndicator"), ("psar_up_indicator", "PSARIndicator"),
             ("psar_down_indicator", "PSARIndicator"), ("average_true_range", "AverageTrueRange"),
             ("bollinger_hband", "BollingerBands"), ("bollinger_lband", "BollingerBands"),
             ("bollinger_wband", "BollingerBands"), ("bollinger_pband", "BollingerBands"),
             ("bollinger_hband_indicator", "BollingerBands"), ("bollinger_lband_indicator", "BollingerBands"),
             ("donchian_channel_hband", "DonchianChannel"), ("donchian_channel_lband", "DonchianChannel"),
             ("ulcer_index", "UlcerIndex"), ("acc_dist_index", "AccDistIndexIndicator"),
             ("on_balance_volume", "OnBalanceVolumeIndicator"), ("chaikin_money_flow", "ChaikinMoneyFlowIndicator"),
             ("force_index", "ForceIndexIndicator"), ("ease_of_movement", "EaseOfMovementIndicator"),
             ("sma_ease_of_movement", "EaseOfMovementIndicator"),
             ("volume_price_trend", "VolumePriceTrendIndicator"),
             ("negative_volume_index", "NegativeVolumeIndexIndicator"), ("money_flow_index", "MFIIndicator"),
             ("volume_weighted_average_price", "VolumeWeightedAveragePrice"), ("daily_return", "DailyReturnIndicator"),
             ("daily_log_return", "DailyLogReturnIndicator"), ("cumulative_return", "CumulativeReturnIndicator")]:
    _auto(n, c)
_auto("ema_indicator", "EMAIndicator", over={"window": 12})
_auto("sma_indicator", "SMAIndicator", over={"window": 12})
_auto("wma_indicator", "WMAIndicator", "wma")
_auto("macd", "MACD", drop=("window_sign",))
_auto("kst", "KSTIndicator", drop=("nsig",))
for n in ("ichimoku_conversion_line", "ichimoku_base_line", "ichimoku_a"):
    _auto(n, "IchimokuIndicator", drop=("window3",))
_auto("ichimoku_b", "IchimokuIndicator", drop=("window1",))
_auto("bollinger_mavg", "BollingerBands", drop=("window_dev",))
for n in ("mband", "hband", "lband", "wband", "pband", "hband_indicator", "lband_indicator"):
    _auto("keltner_channel_" + n, "KeltnerChannel", drop=("multiplier",))
for n in ("mband", "wband", "pband"):
    _auto("donchian_channel_" + n, "DonchianChannel", over={"window": 10})

# ------------------------------------------------------------------ bulk builder
# (column, class, parameters, accessor, vectorized too?)
BULK = {
    "volume": [
        ("adi", "AccDistIndexIndicator", {}, "acc_dist_index", 1),
        ("obv", "OnBalanceVolumeIndicator", {}, "on_balance_volume", 1),
        ("cmf", "ChaikinMoneyFlowIndicator", {"window": 20}, "chaikin_money_flow", 1),
        ("fi", "ForceIndexIndicator", {"window": 13}, "force_index", 1),
        ("em", "EaseOfMovementIndicator", {"window": 14}, "ease_of_movement", 1),
        ("sma_em", "EaseOfMovementIndicator", {"window": 14}, "sma_ease_of_movement", 1),
        ("vpt", "VolumePriceTrendIndicator", {"smoothing_factor": None, "dropnans": False}, "volume_price_trend", 1),
        ("vwap", "VolumeWeightedAveragePrice", {"window": 14}, "volume_weighted_average_price", 1),
        ("mfi", "MFIIndicator", {"window": 14}, "money_flow_index", 0),
        ("nvi", "NegativeVolumeIndexIndicator", {}, "negative_volume_index", 0),
    ],
    "volatility": [
        (c, "BollingerBands", {"window": 20, "window_dev": 2}, "bollinger_" + a, 1) for c, a in
        [("bbm", "mavg"), ("bbh", "hband"), ("bbl", "lband"), ("bbw", "wband"), ("bbp", "pband"),
         ("bbhi", "hband_indicator"), ("bbli", "lband_indicator")]
    ] + [
        (c, "KeltnerChannel", {"window": 10, "window_atr": 10, "original_version": True, "multiplier": 2},
         "keltner_channel_" + a, 1) for c, a in
        [("kcc", "mband"), ("kch", "hband"), ("kcl", "lband"), ("kcw", "wband"), ("kcp", "pband"),
         ("kchi", "hband_indicator"), ("kcli", "lband_indicator")]
    ] + [
        (c, "DonchianChannel", {"window": 20, "offset": 0}, "donchian_channel_" + a, 1) for c, a in
        [("dcl", "lband"), ("dch", "hband"), ("dcm", "mband"), ("dcw", "wband"), ("dcp", "pband")]
    ] + [
        ("atr", "AverageTrueRange", {"window": 10}, "average_true_range", 0),
        ("ui", "UlcerIndex", {"window": 14}, "ulcer_index", 0),
    ],
    "trend": [
        (c, "MACD", {"window_slow": 26, "window_fast": 12, "window_sign": 9}, c, 1)
        for c in ("macd", "macd_signal", "macd_diff")
    ] + [
        ("sma_fast", "SMAIndicator", {"window": 12}, "sma_indicator", 1),
        ("sma_slow", "SMAIndicator", {"window": 26}, "sma_indicator", 1),
        ("ema_fast", "EMAIndicator", {"window": 12}, "ema_indicator", 1),
        ("ema_slow", "EMAIndicator", {"window": 26}, "ema_indicator", 1),
        ("vortex_ind_pos", "VortexIndicator", {"window": 14}, "vortex_indicator_pos", 1),
        ("vortex_ind_neg", "VortexIndicator", {"window": 14}, "vortex_indicator_neg", 1),
        ("vortex_ind_diff", "VortexIndicator", {"window": 14}, "vortex_indicator_diff", 1),
        ("trix", "TRIXIndicator", {"window": 15}, "trix", 1),
        ("mass_index", "MassIndex", {"window_fast": 9, "window_slow": 25}, "mass_index", 1),
        ("dpo", "DPOIndicator", {"window": 20}, "dpo", 1),
    ] + [
        (c, "KSTIndicator", dict(roc1=10, roc2=15, roc3=20, roc4=30, window1=10, window2=10, window3=10,
                                 window4=15, nsig=9), c, 1) for c in ("kst", "kst_sig", "kst_diff")
    ] + [
        (c, "IchimokuIndicator", dict(window1=9, window2=26, window3=52, visual=False), a, 1) for c, a in
        [("ichimoku_conv", "ichimoku_conversion_line"), ("ichimoku_base", "ichimoku_base_line"),
         ("ichimoku_a", "ichimoku_a"), ("ichimoku_b", "ichimoku_b")]
    ] + [
        ("stc", "STCIndicator", dict(window_slow=50, window_fast=23, cycle=10, smooth1=3, smooth2=3), "stc", 1),
        ("adx", "ADXIndicator", {"window": 14}, "adx", 0),
        ("adx_pos", "ADXIndicator", {"window": 14}, "adx_pos", 0),
        ("adx_neg", "ADXIndicator", {"window": 14}, "adx_neg", 0),
        ("cci", "CCIIndicator", {"window": 20, "constant": 0.015}, "cci", 0),
        ("visual_ichimoku_a", "IchimokuIndicator", dict(window1=9, window2=26, window3=52, visual=True),
         "ichimoku_a", 0),
        ("visual_ichimoku_b", "IchimokuIndicator", dict(window1=9, window2=26, window3=52, visual=True),
         "ichimoku_b", 0),
        ("aroon_up", "AroonIndicator", {"window": 25}, "aroon_up", 0),
        ("aroon_down", "AroonIndicator", {"window": 25}, "aroon_down", 0),
        ("aroon_ind", "AroonIndicator", {"window": 25}, "aroon_indicator", 0),
    ] + [
        (c, "PSARIndicator", {"step": 0.02, "max_step": 0.2}, c, 0)
        for c in ("psar_up", "psar_down", "psar_up_indicator", "psar_down_indicator")
    ],
    "momentum": [
        ("rsi", "RSIIndicator", {"window": 14}, "rsi", 1),
        ("stoch_rsi", "StochRSIIndicator", dict(window=14, smooth1=3, smooth2=3), "stochrsi", 1),
        ("stoch_rsi_k", "StochRSIIndicator", dict(window=14, smooth1=3, smooth2=3), "stochrsi_k", 1),
        ("stoch_rsi_d", "StochRSIIndicator", dict(window=14, smooth1=3, smooth2=3), "stochrsi_d", 1),
        ("tsi", "TSIIndicator", dict(window_slow=25, window_fast=13), "tsi", 1),
        ("uo", "UltimateOscillator", dict(window1=7, window2=14, window3=28, weight1=4.0, weight2=2.0, weight3=1.0),
         "ultimate_oscillator", 1),
        ("stoch", "StochasticOscillator", dict(window=14, smooth_window=3), "stoch", 1),
        ("stoch_signal", "StochasticOscillator", dict(window=14, smooth_window=3), "stoch_signal", 1),
        ("wr", "WilliamsRIndicator", {"lbp": 14}, "williams_r", 1),
        ("ao", "AwesomeOscillatorIndicator", dict(window1=5, window2=34), "awesome_oscillator", 1),
        ("roc", "ROCIndicator", {"window": 12}, "roc", 1),
    ] + [
        (c, "PercentagePriceOscillator", dict(window_slow=26, window_fast=12, window_sign=9), c, 1)
        for c in ("ppo", "ppo_signal", "ppo_hist")
    ] + [
        (c, "PercentageVolumeOscillator", dict(window_slow=26, window_fast=12, window_sign=9), c, 1)
        for c in ("pvo", "pvo_signal", "pvo_hist")
    ] + [("kama", "KAMAIndicator", dict(window=10, pow1=2, pow2=30), "kama", 0)],
    "others": [
        ("dr", "DailyReturnIndicator", {}, "daily_return", 1),
        ("dlr", "DailyLogReturnIndicator", {}, "daily_log_return", 1),
        ("cr", "CumulativeReturnIndicator", {}, "cumulative_return", 1),
    ],
}
FAMILY_ORDER = ["volume", "volatility", "trend", "momentum", "others"]


def bulk_columns(vectorized=False, families=FAMILY_ORDER):
    out = []
    for f in families:
        for c, cls, p, acc, vec in BULK[f]:
            if vec or not vectorized:
                out.append((f + "_" + c, cls, p, acc))
    return out
