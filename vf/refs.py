"""Reference models: every indicator line written from its documented formula, in
error-tracked arithmetic (iv.S).  Independent of the code under test: nothing is
imported from ta, no pandas.

Each model takes (d, p, fill): d has S series open/high/low/close/volume, p the
parameter dict, fill whether gap filling is on (it relaxes minimum periods), and
returns {accessor name: S} before filling.
"""
import numpy as np

from .iv import LD, S, U, const, maximum, minimum, select


def mp(fill, w, on=0):
    return on if fill else w


def sma(x, w, fill):
    return x.roll(w, mp(fill, w), "mean")


def ema(x, w, fill):
    return x.ewm(LD(2) / (LD(w) + 1), mp(fill, w))


def flag(c):
    n = len(c)
    v = np.where(c == 1, 1.0, 0.0)
    return S(v, np.where(c == -1, np.inf, 0.0))


def true_range(d, prev):
    return maximum(d["high"] - d["low"], (d["high"] - prev).abs(), (d["low"] - prev).abs(), skipna=True)


def typical(d):
    return (d["high"] + d["low"] + d["close"]) / 3.0


# ---------------------------------------------------------------- momentum
def rsi_line(c, w, fill):
    ch = c.diff()
    up = select(ch.gt(0), ch, 0.0)
    dn = select(ch.lt(0), -ch, 0.0)
    a = LD(1) / LD(w)
    au = up.ewm(a, mp(fill, w))
    ad = dn.ewm(a, mp(fill, w))
    ratio = 100.0 - 100.0 / (1.0 + au / ad)
    r = select(ad.eq(0), 100.0, ratio)
    # before the look-back is full both averages are missing -> missing
    return S(np.where(np.isnan(ad.v), LD(np.nan), r.v), np.where(np.isnan(ad.v) & ~ad.und, 0.0, r.e))


def rsi(d, p, fill):
    return {"rsi": rsi_line(d["close"], p["window"], fill)}


def tsi(d, p, fill):
    m = d["close"].diff()
    sl, fa = p["window_slow"], p["window_fast"]
    num = ema(ema(m, sl, fill), fa, fill)
    den = ema(ema(m.abs(), sl, fill), fa, fill)
    return {"tsi": num / den * 100.0}


def uo(d, p, fill):
    prev = d["close"].shift(1)
    tr = true_range(d, prev)
    bp = d["close"] - minimum(d["low"], prev)

    def avg(w):
        return bp.roll(w, mp(fill, w), "sum") / tr.roll(w, mp(fill, w), "sum")

    w1, w2, w3 = p["weight1"], p["weight2"], p["weight3"]
    tot = avg(p["window1"]) * w1 + avg(p["window2"]) * w2 + avg(p["window3"]) * w3
    return {"ultimate_oscillator": 100.0 * tot / (w1 + w2 + w3)}


def stoch(d, p, fill):
    w = p["window"]
    lo = d["low"].roll(w, mp(fill, w), "min")
    hi = d["high"].roll(w, mp(fill, w), "max")
    k = 100.0 * (d["close"] - lo) / (hi - lo)
    sw = p["smooth_window"]
    return {"stoch": k, "stoch_signal": k.roll(sw, mp(fill, sw), "mean")}


def williams(d, p, fill):
    w = p["lbp"]
    lo = d["low"].roll(w, mp(fill, w), "min")
    hi = d["high"].roll(w, mp(fill, w), "max")
    return {"williams_r": -100.0 * (hi - d["close"]) / (hi - lo)}


def ao(d, p, fill):
    m = 0.5 * (d["high"] + d["low"])
    return {"awesome_oscillator": sma(m, p["window1"], fill) - sma(m, p["window2"], fill)}


def kama(d, p, fill):
    c = d["close"]
    n = len(c)
    w = p["window"]
    fast = LD(2) / (LD(p["pow1"]) + 1)
    slow = LD(2) / (LD(p["pow2"]) + 1)
    v = np.full(n, LD(np.nan)); e = np.zeros(n)
    y = None; ye = 0.0
    step = [LD(0)] + [abs(c.v[i] - c.v[i - 1]) for i in range(1, n)]
    start = 0 if fill else w - 1
    hist = 0.0
    grid_c = (c * 1.0).e  # exact zeros where prices sit on the grid
    onval = grid_c == 0
    alltrue = True
    for t in range(n):
        hist += float(step[t])
        alltrue = alltrue and bool(onval[t])
        if t < start:
            continue
        if y is None:
            y = c.v[t]; ye = 0.0
        else:
            a = max(0, t - w)          # with filling on, the part of the look-back that exists
            change = abs(c.v[t] - c.v[a])
            moves = step[max(1, t - w + 1): t + 1]
            vol = sum(moves, LD(0))
            vol_e = 0.0 if alltrue else 8 * U * hist + U * float(sum(abs(c.v[max(0, t - w): t + 1]), LD(0)))
            ch_e = 0.0 if alltrue else U * float(abs(change))
            if vol == 0 and (vol_e == 0 or all(m == 0 for m in step[: t + 1])):
                er = LD(0); er_e = 0.0
            elif vol <= vol_e:
                # efficiency undetermined (rounding residue of a flat window)
                if abs(y - c.v[t]) <= ye and ye == 0:
                    er = LD(0); er_e = 0.0
                else:
                    e[t:] = np.inf
                    break
            else:
                er = change / vol
                er_e = (ch_e + float(er) * vol_e) / float(vol - vol_e) + 2 * U * float(er)
            s = er * (fast - slow) + slow
            s_e = er_e * float(abs(fast - slow)) + 6 * U * float(abs(er) * (fast + slow) + slow)
            sc = s * s
            sc_e = 2 * float(abs(s)) * s_e + s_e * s_e + 2 * U * float(sc)
            gap = c.v[t] - y
            if gap == 0 and ye == 0:
                pass
            else:
                ny = y + sc * gap
                ye = abs(float(1 - sc)) * ye + sc_e * (abs(float(gap)) + ye) + 4 * U * (float(abs(y)) + float(abs(sc * gap))) + 1e-322
                y = ny
        v[t] = y; e[t] = ye
    return {"kama": S(v, e)}


def roc(d, p, fill):
    c = d["close"]
    b = c.shift(p["window"])
    return {"roc": (c - b) / b * 100.0}


def stochrsi(d, p, fill):
    from .iv import fill as do_fill
    w = p["window"]
    r = rsi_line(d["close"], w, fill)
    if fill:
        r = do_fill(r, 50)
    lo = r.roll(w, w, "min")
    hi = r.roll(w, w, "max")
    # the extremes are themselves RSI readings: if the whole window is one exact value -> 0/0
    s = (r - lo) / (hi - lo)
    k = s.roll(p["smooth1"], p["smooth1"], "mean")
    return {"stochrsi": s, "stochrsi_k": k, "stochrsi_d": k.roll(p["smooth2"], p["smooth2"], "mean")}


def _po(x, p, fill, name):
    f = ema(x, p["window_fast"], fill)
    s = ema(x, p["window_slow"], fill)
    line = (f - s) / s * 100.0
    sig = ema(line, p["window_sign"], fill)
    return {name: line, name + "_signal": sig, name + "_hist": line - sig}


def ppo(d, p, fill):
    return _po(d["close"], p, fill, "ppo")


def pvo(d, p, fill):
    return _po(d["volume"], p, fill, "pvo")


# ---------------------------------------------------------------- trend
def f_sma(d, p, fill):
    return {"sma_indicator": sma(d["close"], p["window"], fill)}


def f_ema(d, p, fill):
    return {"ema_indicator": ema(d["close"], p["window"], fill)}


def wma(d, p, fill):
    w = p["window"]
    tot = LD(w) * (w + 1) / 2
    wt = np.arange(1, w + 1).astype(LD) / tot

    def f(xv, xe):
        if len(xv) < w:
            return LD(np.nan), 0.0
        v = (wt * xv).sum()
        return v, float((wt * xe).sum()) + 8 * U * float((wt * np.abs(xv)).sum()) * (1 + w / 8)

    return {"wma": d["close"].roll_apply(w, w, f)}


def macd(d, p, fill):
    c = d["close"]
    line = ema(c, p["window_fast"], fill) - ema(c, p["window_slow"], fill)
    sig = ema(line, p["window_sign"], fill)
    return {"macd": line, "macd_signal": sig, "macd_diff": line - sig}


def trix(d, p, fill):
    w = p["window"]
    t = ema(ema(ema(d["close"], w, fill), w, fill), w, fill)
    b = t.shift(1)
    return {"trix": (t - b) / b * 100.0}


def mass(d, p, fill):
    r = d["high"] - d["low"]
    e1 = ema(r, p["window_fast"], fill)
    e2 = ema(e1, p["window_fast"], fill)
    w = p["window_slow"]
    return {"mass_index": (e1 / e2).roll(w, mp(fill, w), "sum")}


def kst(d, p, fill):
    c = d["close"]

    def rcma(r, w):
        b = c.shift(r)
        return ((c - b) / b).roll(w, mp(fill, w), "mean")

    line = 100.0 * (rcma(p["roc1"], p["window1"]) + rcma(p["roc2"], p["window2"]) * 2.0
                    + rcma(p["roc3"], p["window3"]) * 3.0 + rcma(p["roc4"], p["window4"]) * 4.0)
    sig = line.roll(p["nsig"], mp(fill, p["nsig"]), "mean")
    return {"kst": line, "kst_sig": sig, "kst_diff": line - sig}


def dpo(d, p, fill):
    w = p["window"]
    return {"dpo": d["close"].shift(w // 2 + 1) - sma(d["close"], w, fill)}


def cci(d, p, fill):
    w = p["window"]
    tp = typical(d)
    m = sma(tp, w, fill)

    def mad(xv, xe):
        mu = xv.mean()
        v = np.abs(xv - mu).mean()
        k = len(xv)
        flat = (xe == 0).all() and (xv == xv[0]).all()
        er = 0.0 if flat else float(2 * xe.mean()) + 4 * U * float(np.abs(xv).mean()) * (2 + k / 8)
        if (xe == 0).all() and not flat:
            er = min(er, 4 * U * float(np.abs(xv).mean()) * (2 + k / 8))
        return v, er

    dev = tp.roll_apply(w, mp(fill, w), mad)
    return {"cci": (tp - m) / (dev * float(p["constant"]))}


def stc(d, p, fill):
    c = d["close"]
    m = ema(c, p["window_fast"], fill) - ema(c, p["window_slow"], fill)
    cy = p["cycle"]

    def stk(x):
        lo = x.roll(cy, cy, "min")
        hi = x.roll(cy, cy, "max")
        return 100.0 * (x - lo) / (hi - lo)

    dd = ema(stk(m), p["smooth1"], fill)
    return {"stc": ema(stk(dd), p["smooth2"], fill)}


def ichimoku(d, p, fill):
    def mid(w):
        return 0.5 * (d["high"].roll(w, mp(fill, w), "max") + d["low"].roll(w, mp(fill, w), "min"))

    conv, base = mid(p["window1"]), mid(p["window2"])
    a, b = 0.5 * (conv + base), mid(p["window3"])
    if p["visual"]:
        a, b = a.shift(p["window2"]), b.shift(p["window2"])
    return {"ichimoku_conversion_line": conv, "ichimoku_base_line": base, "ichimoku_a": a, "ichimoku_b": b}


def aroon(d, p, fill):
    w = p["window"]

    def since(x, pick):
        def f(xv, xe):
            k = len(xv)
            i = int(pick(xv))
            v = LD(w - (k - 1 - i)) / w * 100
            return v, 4 * U * float(abs(v)) + 4 * U * 100
        return x.roll_apply(w + 1, 1 if fill else w + 1, f)

    up, dn = since(d["high"], np.argmax), since(d["low"], np.argmin)
    return {"aroon_up": up, "aroon_down": dn, "aroon_indicator": up - dn}


def adx(d, p, fill):
    """Wilder: sums over the first w one-bar changes, then S - S/w + x.  Unavailable
    bars carry the library's placeholder 0."""
    h, l, c = d["high"], d["low"], d["close"]
    n = len(c); w = p["window"]
    prev = c.shift(1)
    tr = maximum(h, prev) - minimum(l, prev)
    up = h.diff(); dn = -l.diff()
    cu = up.gt(dn); cu0 = up.gt(0)
    cd = dn.gt(up); cd0 = dn.gt(0)

    def both(a, b):
        return np.where((a == 0) | (b == 0), 0, np.where((a == 1) & (b == 1), 1, -1))

    pos = select(both(cu, cu0), up, 0.0)
    neg = select(both(cd, cd0), dn, 0.0)

    def wilder(x):
        v = np.full(n, LD(np.nan)); e = np.zeros(n)
        if n > w:
            s = LD(0); se = 0.0
            for t in range(1, w + 1):
                s = s + x.v[t]; se += float(x.e[t])
            se += 0.0 if (x.e[1:w + 1] == 0).all() else 8 * U * float(abs(s)) * w
            v[w] = s; e[w] = se
            for t in range(w + 1, n):
                s2 = s - s / w + x.v[t]
                if w == 1:
                    s2, se = x.v[t], float(x.e[t])      # nothing of the past remains, in any order of evaluation
                elif not (s == 0 and se == 0 and x.v[t] == 0 and x.e[t] == 0):
                    se = se * (1 - 1.0 / w) + float(x.e[t]) + 6 * U * float(abs(s) + abs(x.v[t])) + 1e-322
                s = s2
                v[t] = s; e[t] = se
        return S(v, np.where(np.isnan(e), np.inf, e))

    T, P, N = wilder(tr), wilder(pos), wilder(neg)
    zero = T.eq(0)
    pdi = select(zero, 0.0, 100.0 * (P / T))
    ndi = select(zero, 0.0, 100.0 * (N / T))
    tot = pdi + ndi
    dx = select(tot.eq(0), 0.0, 100.0 * ((pdi - ndi) / tot).abs())
    # where nothing has been observed yet: placeholder 0
    live = np.arange(n) >= w
    z = const(0.0, n)
    pdi = S(np.where(live, pdi.v, z.v), np.where(live, pdi.e, 0.0))
    ndi = S(np.where(live, ndi.v, z.v), np.where(live, ndi.e, 0.0))
    av = np.zeros(n, LD); ae = np.zeros(n)
    if n >= 2 * w:
        seg = dx[w:2 * w]
        if np.isinf(seg.e).any():
            s, se = LD(0), np.inf
        else:
            s = seg.v.sum() / w
            se = float(seg.e.sum()) / w + (0 if (seg.e == 0).all() else 8 * U * float(abs(s)))
        av[2 * w - 1], ae[2 * w - 1] = s, se
        for t in range(2 * w, n):
            s = (s * (w - 1) + dx.v[t]) / w
            if np.isinf(se) or np.isinf(dx.e[t]):
                # an undetermined reading fades, but claim nothing from here on (w=1 forgets at once)
                se = float(dx.e[t]) if w == 1 else np.inf
                s = dx.v[t] if w == 1 else s
            else:
                se = (se * (w - 1) + float(dx.e[t])) / w + 6 * U * float(abs(s)) + 1e-322
            av[t], ae[t] = s, se
    return {"adx": S(av, ae), "adx_pos": pdi, "adx_neg": ndi}


def vortex(d, p, fill):
    h, l, c = d["high"], d["low"], d["close"]
    w = p["window"]
    m = mp(fill, w)
    tr = true_range(d, c.shift(1)).roll(w, m, "sum")
    vp = (h - l.shift(1)).abs().roll(w, m, "sum") / tr
    vm = (l - h.shift(1)).abs().roll(w, m, "sum") / tr
    return {"vortex_indicator_pos": vp, "vortex_indicator_neg": vm, "vortex_indicator_diff": vp - vm}


def psar(d, p, fill):
    H, L, C = d["high"].v, d["low"].v, d["close"].v
    n = len(C)
    step, mx = LD(p["step"]), LD(p["max_step"])
    up = True
    af = step
    hi, lo = H[0], L[0]
    sv = C.copy(); se = np.zeros(n)
    dirs = np.zeros(n, int)     # 1 up, -1 down, 0 none yet
    dead = n
    for t in range(2, n):
        prev, pe = sv[t - 1], se[t - 1]
        ep = hi if up else lo
        s = prev + af * (ep - prev)
        if ep == prev and pe == 0:
            e = 0.0
        else:
            e = pe * abs(float(1 - af)) + 6 * U * float(abs(prev) + abs(af * (ep - prev))) + 1e-322
        edge = L[t] if up else H[t]
        if abs(edge - s) <= 16 * e and not (e == 0):
            dead = t
            break
        crossed = edge < s if up else edge > s
        if crossed:
            s = ep; e = 0.0
            if up:
                lo = L[t]
            else:
                hi = H[t]
            af = step
            up = not up
        else:
            if up:
                if H[t] > hi:
                    hi = H[t]
                    af = min(af + step, mx)
                q = min(L[t - 1], L[t - 2])
                if q < s - e:
                    s = q; e = 0.0
                elif q <= s + e:
                    s = min(q, s); e = 2 * e
            else:
                if L[t] < lo:
                    lo = L[t]
                    af = min(af + step, mx)
                q = max(H[t - 1], H[t - 2])
                if q > s + e:
                    s = q; e = 0.0
                elif q >= s - e:
                    s = max(q, s); e = 2 * e
        sv[t] = s; se[t] = e
        dirs[t] = 1 if up else -1
    se[dead:] = np.inf
    und = np.arange(n) >= dead

    def line(k):
        return S(np.where(dirs == k, sv, LD(np.nan)), np.where(und, np.inf, np.where(dirs == k, se, 0.0)))

    def starts(k):
        on = dirs == k
        first = on & ~np.concatenate([[False], on[:-1]])
        return S(first.astype(float), np.where(und, np.inf, 0.0))

    return {"psar": S(sv, se), "psar_up": line(1), "psar_down": line(-1),
            "psar_up_indicator": starts(1), "psar_down_indicator": starts(-1)}


# ---------------------------------------------------------------- volatility
def atr_line(d, w):
    c = d["close"]
    n = len(c)
    tr = true_range(d, c.shift(1))
    v = np.zeros(n, LD); e = np.zeros(n)
    if n >= w:
        y = tr.v[:w].sum() / w
        ye = float(tr.e[:w].sum()) / w
        flat = (tr.e[:w] == 0).all() and (tr.v[:w] == tr.v[0]).all()
        if not flat:
            ye += 8 * U * float(abs(y)) + 1e-322
        v[w - 1], e[w - 1] = y, ye
        for t in range(w, n):
            x, xe = tr.v[t], float(tr.e[t])
            if not (x == y and ye == 0 and xe == 0 and x == 0):
                ye = (ye * (w - 1) + xe) / w + 6 * U * float(abs(y) + abs(x) / w) + 1e-322
                y = (y * (w - 1) + x) / w
            v[t], e[t] = y, ye
    return S(v, e)


def atr(d, p, fill):
    return {"average_true_range": atr_line(d, p["window"])}


def bollinger(d, p, fill):
    c = d["close"]; w = p["window"]; k = p["window_dev"]
    m = sma(c, w, fill)
    s = c.roll_var(w, mp(fill, w)).sqrt()
    hi, lo = m + s * k, m - s * k
    return {"bollinger_mavg": m, "bollinger_hband": hi, "bollinger_lband": lo,
            "bollinger_wband": 100.0 * ((hi - lo) / m),
            "bollinger_pband": pct(c, lo, hi),
            "bollinger_hband_indicator": flag(c.gt(hi)), "bollinger_lband_indicator": flag(c.lt(lo))}


def pct(c, lo, hi):
    r = (c - lo) / (hi - lo)
    # zero width -> missing
    z = hi.eq(lo)
    return S(np.where(z == 1, LD(np.nan), r.v), np.where(z == 1, 0.0, np.where(z == -1, np.inf, r.e)))


def keltner(d, p, fill):
    h, l, c = d["high"], d["low"], d["close"]
    w = p["window"]
    if p["original_version"]:
        m = sma(typical(d), w, fill)
        hi = sma((4.0 * h - 2.0 * l + c) / 3.0, w, fill)
        lo = sma((-2.0 * h + 4.0 * l + c) / 3.0, w, fill)
    else:
        m = ema(c, w, fill)
        a = atr_line(d, p["window_atr"])
        hi, lo = m + a * p["multiplier"], m - a * p["multiplier"]
    return {"keltner_channel_mband": m, "keltner_channel_hband": hi, "keltner_channel_lband": lo,
            "keltner_channel_wband": 100.0 * ((hi - lo) / m),
            "keltner_channel_pband": (c - lo) / (hi - lo),
            "keltner_channel_hband_indicator": flag(c.gt(hi)), "keltner_channel_lband_indicator": flag(c.lt(lo))}


def donchian(d, p, fill):
    c = d["close"]; w = p["window"]; o = p["offset"]
    m1 = mp(fill, w)
    hi = d["high"].roll(w, m1, "max")
    lo = d["low"].roll(w, m1, "min")
    mid = (hi + lo) / 2.0
    out = {"donchian_channel_hband": hi, "donchian_channel_lband": lo, "donchian_channel_mband": mid,
           "donchian_channel_wband": 100.0 * ((hi - lo) / sma(c, w, fill)),
           "donchian_channel_pband": (c - lo) / (hi - lo)}
    return {k: x.shift(o) for k, x in out.items()} if o else out


def ulcer(d, p, fill):
    c = d["close"]; w = p["window"]
    peak = c.roll(w, 1, "max")
    dd = 100.0 * ((c - peak) / peak)
    return {"ulcer_index": _ulcer(dd, w)}


def _ulcer(dd, w):
    def f(xv, xe):
        if len(xv) < w:
            return LD(np.nan), 0.0
        v2 = (xv * xv).sum() / w
        v = np.sqrt(v2)
        if v2 == 0:
            return LD(0), float(np.sqrt((xe * xe).sum()))
        e2 = float((2 * np.abs(xv) * xe + xe * xe).sum()) / w + 8 * U * float(v2) * (1 + w / 8)
        return v, min(e2 / float(v), np.sqrt(e2))
    return dd.roll_apply(w, w, f)


# ---------------------------------------------------------------- volume
def mult(d):
    h, l, c = d["high"], d["low"], d["close"]
    num, other = (c - l) - (h - c), (c * 2.0 - l) - h       # either order of summation will do
    m = S(num.v, np.maximum(num.e, other.e)) / (h - l)
    # a bar without range contributes nothing
    z = (h - l).eq(0)
    return S(np.where(z == 1, LD(0), m.v), np.where(z == 1, 0.0, m.e))


def adi(d, p, fill):
    return {"acc_dist_index": (mult(d) * d["volume"]).cumsum()}


def obv(d, p, fill):
    c, v = d["close"], d["volume"]
    prev = c.shift(1)
    step = select(c.lt(prev), -v, select(c.eq(prev), 0.0, v))
    return {"on_balance_volume": step.cumsum()}


def cmf(d, p, fill):
    w = p["window"]; m = mp(fill, w)
    return {"chaikin_money_flow": (mult(d) * d["volume"]).roll(w, m, "sum") / d["volume"].roll(w, m, "sum")}


def fi(d, p, fill):
    return {"force_index": ema(d["close"].diff() * d["volume"], p["window"], fill)}


def eom(d, p, fill):
    h, l, v = d["high"], d["low"], d["volume"]
    # the mid-point may be averaged (and so rounded) before it is differenced
    move = h.diff() + l.diff()
    m = h + l
    with np.errstate(all="ignore"):
        r = 2 * U * (abs(m.v) + abs(m.shift(1).v)).astype(float)
        same = (h.diff().v == 0) & (l.diff().v == 0) | (m.e == 0) & (m.shift(1).e == 0)
        move = S(move.v, np.where(same | ~np.isfinite(r), move.e, move.e + r))
    e = move * (h - l) / (2.0 * v) * 1e8
    with np.errstate(all="ignore"):
        # the scale and the volume may be divided in any order
        r = 4 * U * abs(e.v).astype(float)
        e = S(e.v, np.where(np.isfinite(r), e.e + r, e.e))
    return {"ease_of_movement": e, "sma_ease_of_movement": sma(e, p["window"], fill)}


def vpt(d, p, fill):
    c = d["close"]; prev = c.shift(1)
    x = ((c / prev - 1.0) * d["volume"]).cumsum()
    k = p["smoothing_factor"]
    if k:
        x = sma(x, k, fill)
    return {"volume_price_trend": x}


def nvi(d, p, fill):
    c, vol = d["close"].v, d["volume"].v
    n = len(c)
    v = np.zeros(n, LD); e = np.zeros(n)
    y = LD(1000); ye = 0.0
    for t in range(n):
        if t and vol[t] < vol[t - 1]:
            y = y * (c[t] / c[t - 1])
            ye = ye * float(c[t] / c[t - 1]) + 8 * U * float(abs(y)) * max(1.0, float(c[t - 1] / c[t])) + 1e-322
        v[t], e[t] = y, ye
    return {"negative_volume_index": S(v, e)}


def mfi(d, p, fill):
    w = p["window"]; m = mp(fill, w)
    h, l, c = d["high"], d["low"], d["close"]
    s = h + l + c
    tp = s / 3.0
    prev = s.shift(1)
    flow = tp * d["volume"]
    # equal sums of the three prices give equal typical prices even though /3 rounds
    up = s.gt(prev); dn = s.lt(prev)
    posf = select(up, flow, 0.0).roll(w, m, "sum")
    negf = select(dn, flow, 0.0).roll(w, m, "sum")
    return {"money_flow_index": 100.0 - 100.0 / (1.0 + posf / negf)}


def vwap(d, p, fill):
    w = p["window"]; m = mp(fill, w)
    return {"volume_weighted_average_price":
            (typical(d) * d["volume"]).roll(w, m, "sum") / d["volume"].roll(w, m, "sum")}


# ---------------------------------------------------------------- others
def dr(d, p, fill):
    c = d["close"]; b = c.shift(1)
    return {"daily_return": (c / b - 1.0) * 100.0}


def dlr(d, p, fill):
    return {"daily_log_return": d["close"].log().diff() * 100.0}


def cr(d, p, fill):
    c = d["close"]
    return {"cumulative_return": (c / S(np.full(len(c), c.v[0])) - 1.0) * 100.0}
