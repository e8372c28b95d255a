"""Error-tracked series arithmetic: the number system of the reference models.

A series is (v, e): v in extended precision is what the formula gives in exact
arithmetic (to ~1e-19 relative), e bounds how far *any* reasonable float64
evaluation of the formula may be away from v.  e = inf means "undetermined":
rounding alone can decide the value (a 0/0 that may come out as noise/noise, a
comparison of two numbers that are equal up to rounding), so nothing is claimed.

v = NaN with finite e means: the value is determined to be missing.

Exactness: data on a dyadic grid (multiples of 2**-8) make sums, differences and
many products exact in float64 whatever the evaluation order, so e stays 0 and
ties, flat markets and exact zeros are decided rather than skipped.
"""
import numpy as np

LD = np.longdouble
U = 2.0 ** -53
_S = LD(2.0 ** 8)
_LIM = 2.0 ** 51


def _grid(v):
    with np.errstate(all="ignore"):
        s = v * _S
        return (np.abs(s) < _LIM) & (np.floor(s) == s)


class S:
    __slots__ = ("v", "e")

    def __init__(self, v, e=None):
        self.v = np.asarray(v, dtype=LD)
        if e is None:
            e = np.zeros(self.v.shape)
        self.e = np.asarray(e, dtype=np.float64)

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        return S(self.v[i], self.e[i])

    def copy(self):
        return S(self.v.copy(), self.e.copy())

    # ---- helpers
    @staticmethod
    def lift(x, n=None):
        if isinstance(x, S):
            return x
        return S(np.asarray(LD(x)))

    @property
    def und(self):
        return np.isinf(self.e)

    def isnan(self):
        """determined missing"""
        return np.isnan(self.v) & ~self.und

    def __add__(self, o):
        o = S.lift(o)
        with np.errstate(all="ignore"):
            v = self.v + o.v
            e = _fin(self.e + o.e, v)
            e = e + _rnd(v, (self.e == 0) & (o.e == 0))
        return _mk(v, e, self, o)

    __radd__ = __add__

    def __neg__(self):
        return S(-self.v, self.e)

    def __sub__(self, o):
        return self + (-S.lift(o))

    def __rsub__(self, o):
        return S.lift(o) + (-self)

    def __mul__(self, o):
        o = S.lift(o)
        with np.errstate(all="ignore"):
            v = self.v * o.v
            e = (_abs(self.v) * o.e + _abs(o.v) * self.e + self.e * o.e).astype(float)
            e = np.where((self.e == 0) & (o.e == 0), 0.0, e)
            e = _fin(e, v)
            e = e + _rnd(v, (self.e == 0) & (o.e == 0))
        return _mk(v, e, self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = S.lift(o)
        with np.errstate(all="ignore"):
            a, b = self, o
            v = a.v / b.v
            bad = (_abs(b.v) <= b.e) & (b.e > 0)
            den = _abs(b.v) - b.e
            e = ((a.e + _abs(v) * b.e) / np.where(den > 0, den, 1)).astype(float)
            ex = (a.e == 0) & (b.e == 0)
            e = np.where(ex, 0.0, e)
            z = (b.v == 0) & (b.e == 0)
            # x/0 : sign of x must be determined, 0/0 -> nan determined
            e = np.where(z & ~np.isnan(a.v), np.where((a.e == 0) | (_abs(a.v) > a.e), 0.0, np.inf), e)
            e = np.where(np.isinf(v) | np.isnan(v), np.where(np.isinf(e), e, 0.0), e)
            e = e + _rnd(v, ex)
            e = np.where(bad, np.inf, e)
        return _mk(v, e, a, o)

    def __rtruediv__(self, o):
        return S.lift(o) / self

    def abs(self):
        return S(np.abs(self.v), self.e)

    def sqrt(self):
        with np.errstate(all="ignore"):
            v = np.sqrt(np.maximum(self.v, 0))
            v = np.where(np.isnan(self.v), LD(np.nan), v)
            lo = np.sqrt(np.maximum(self.v - self.e, 0))
            hi = np.sqrt(np.maximum(self.v + self.e, 0))
            e = np.maximum(v - lo, hi - v).astype(float)
            e = np.where(np.isnan(e), 0.0, e)
            e = np.where(self.e == 0, 0.0, e) + _rnd(v, self.e == 0)
        return _mk(v, e, self)

    def log(self):
        with np.errstate(all="ignore"):
            v = np.log(self.v)
            e = (self.e / (_abs(self.v) - self.e)).astype(float)
            e = np.where(self.e == 0, 0.0, e) + 4 * U * np.abs(v).astype(float)
            e = np.where(np.isfinite(v), e, 0.0)
        return _mk(v, e, self)

    # ---- ternary comparisons: 1 true, 0 false, -1 unknown  (NaN operands -> false)
    def gt(self, o):
        o = S.lift(o)
        with np.errstate(all="ignore"):
            d = self.v - o.v
            tol = self.e + o.e
            # both infinite of same sign
            d = np.where(np.isnan(d) & (self.v == o.v), LD(0), d)
            r = np.where(d > tol, 1, np.where(d < -tol, 0, np.where(tol == 0, 0, -1)))
            r = np.where(np.isnan(self.v) | np.isnan(o.v), 0, r)
            r = np.where(np.isinf(self.e) | np.isinf(o.e), -1, r)
        return r

    def lt(self, o):
        return S.lift(o).gt(self)

    def eq(self, o):
        o = S.lift(o)
        with np.errstate(all="ignore"):
            d = np.abs(self.v - o.v)
            tol = self.e + o.e
            r = np.where(d > tol, 0, np.where(tol == 0, 1, -1))
            r = np.where(np.isnan(self.v) | np.isnan(o.v), 0, r)
            r = np.where(np.isinf(self.e) | np.isinf(o.e), -1, r)
        return r

    # ---- time
    def shift(self, k, fill=np.nan):
        n = len(self)
        v = np.full(n, LD(fill)); e = np.zeros(n)
        if k >= 0:
            if k < n:
                v[k:] = self.v[: n - k]; e[k:] = self.e[: n - k]
        else:
            if -k < n:
                v[: n + k] = self.v[-k:]; e[: n + k] = self.e[-k:]
        return S(v, e)

    def diff(self, k=1):
        return self - self.shift(k)

    def _win(self, w, padv=np.nan):
        n = len(self)
        w = min(w, n) if n else w
        pv = np.concatenate([np.full(w - 1, LD(padv)), self.v])
        pe = np.concatenate([np.zeros(w - 1), self.e])
        sv = np.lib.stride_tricks.sliding_window_view(pv, w)
        se = np.lib.stride_tricks.sliding_window_view(pe, w)
        return sv, se

    def _prep(self):
        """infinities make every window touching them undetermined."""
        if np.isinf(self.v).any():
            x = self.copy()
            x.e[np.isinf(x.v)] = np.inf
            x.v[np.isinf(x.v)] = 0
            return x
        return self

    def roll(self, w, minp, how):
        """rolling sum/mean/max/min over the last w bars, missing entries ignored;
        at least max(minp, ...) present entries needed."""
        x = self._prep()
        sv, se = x._win(w)
        ok = ~np.isnan(sv)
        cnt = ok.sum(1)
        und = np.isinf(se).any(1)
        ea = np.where(ok & np.isfinite(se), se, 0.0)
        with np.errstate(all="ignore"):
            if how in ("sum", "mean"):
                z = np.where(ok, sv, LD(0))
                v = z.sum(1)
                e = ea.sum(1)
                hist = np.cumsum(np.where(np.isnan(x.v) | np.isinf(x.e), 0, np.abs(x.v))).astype(float)
                allgrid = np.logical_and.accumulate(
                    (np.isnan(x.v) | (_grid(np.where(np.isnan(x.v), 0, x.v)) & (x.e == 0)) & ~np.isinf(x.e)))
                exact = allgrid & (hist * 256 < _LIM)
                # within a window that is constant and exact, sum is w*x
                e = e + np.where(exact, 0.0, 8 * U * hist)
                if how == "mean":
                    m = v / np.where(cnt > 0, cnt, 1)
                    e = e / np.where(cnt > 0, cnt, 1)
                    e = e + _rnd(m, exact)
                    v = np.where(cnt > 0, m, LD(np.nan))
                    need = max(minp, 1)
                else:
                    need = minp
            elif how in ("max", "min"):
                if how == "max":
                    v = np.where(ok, sv, LD(-np.inf)).max(1)
                else:
                    v = np.where(ok, sv, LD(np.inf)).min(1)
                e = ea.max(1)
                need = max(minp, 1)
            else:
                raise ValueError(how)
        v = np.where(cnt >= need, v, LD(np.nan))
        e = np.where(cnt >= need, e, 0.0)
        e = np.where(und, np.inf, e)
        return S(v, e)

    def roll_var(self, w, minp):
        """population variance over the window"""
        x = self._prep()
        sv, se = x._win(w)
        ok = ~np.isnan(sv)
        cnt = ok.sum(1)
        und = np.isinf(se).any(1)
        with np.errstate(all="ignore"):
            c = np.where(cnt > 0, cnt, 1)
            z = np.where(ok, sv, LD(0))
            m = z.sum(1) / c
            d = np.where(ok, sv - m[:, None], LD(0))
            v = (d * d).sum(1) / c
            emax = np.where(ok & np.isfinite(se), se, 0.0).max(1)
            A = np.maximum.accumulate(np.where(np.isnan(x.v) | np.isinf(x.e), 0, np.abs(x.v))).astype(float)
            nh = np.arange(1, len(x) + 1)
            mn = np.where(ok, sv, LD(np.inf)).min(1)
            mx = np.where(ok, sv, LD(-np.inf)).max(1)
            flat = (mn == mx) & (emax == 0) & _grid(np.where(np.isfinite(mx), mx, 0))
            e = 4 * np.sqrt(v.astype(float)) * emax + 2 * emax ** 2 + 16 * U * nh * A * A
            e = np.where(flat, 0.0, e)
        need = max(minp, 1)
        v = np.where(cnt >= need, v, LD(np.nan))
        e = np.where(cnt >= need, e, 0.0)
        e = np.where(und, np.inf, e)
        return S(v, e)

    def roll_apply(self, w, minp, f):
        """f(values(LD array), errs) -> (v, e) over full or partial windows; the
        windows handed over contain no missing entries (else result missing)."""
        n = len(self)
        v = np.full(n, LD(np.nan)); e = np.zeros(n)
        for t in range(n):
            a = max(0, t - w + 1)
            xv = self.v[a : t + 1]; xe = self.e[a : t + 1]
            if np.isinf(xe).any():
                e[t] = np.inf
                continue
            cnt = int((~np.isnan(xv)).sum())
            if cnt < max(minp, 1):
                continue
            if cnt < len(xv):
                e[t] = np.inf
                continue
            v[t], e[t] = f(xv, xe)
        return S(v, e)

    def ewm(self, alpha, minp):
        """recursive average y = (1-a) y + a x, seeded with the first present value;
        gaps decay the old weight (pandas convention, renormalised)."""
        n = len(self)
        a = LD(alpha)
        v = np.full(n, LD(np.nan)); e = np.zeros(n)
        y = None; ye = 0.0; ow = LD(1); nobs = 0; dead = False
        xv = self.v; xe = self.e
        fa = float(a)
        for t in range(n):
            x = xv[t]; er = xe[t]
            if dead or np.isinf(er):
                dead = True
                e[t] = np.inf
                continue
            if np.isinf(x):
                dead = True
                e[t] = np.inf
                continue
            if np.isnan(x):
                if y is not None:
                    ow = ow * (1 - a)
            elif y is None:
                y = x; ye = float(er); nobs = 1; ow = LD(1)
            else:
                nobs += 1
                ow = ow * (1 - a)
                if y == x and ye == 0 and er == 0:
                    pass
                else:
                    tot = ow + a
                    p = ow / tot; q = a / tot
                    ny = p * y + q * x
                    if er == 0 and ye == 0 and y == 0 and x == 0:
                        ye = 0.0
                    else:
                        ye = float(p) * ye + float(q) * float(er) + 6 * U * float(abs(p * y) + abs(q * x)) + 1e-322
                    y = ny
                ow = LD(1)
            if y is not None and nobs >= max(minp, 1):
                v[t] = y; e[t] = ye
        return S(v, e)

    def cumsum(self):
        """running total that skips missing entries (they stay missing)"""
        n = len(self)
        nan = np.isnan(self.v)
        x = np.where(nan, LD(0), self.v)
        with np.errstate(all="ignore"):
            v = np.cumsum(x)
            hist = np.cumsum(np.abs(np.where(np.isfinite(x), x, 0))).astype(float)
            e = np.cumsum(np.where(nan, 0.0, self.e))
            allgrid = np.logical_and.accumulate(nan | (_grid(np.where(np.isfinite(x), x, 0.5 ** 30)) & (self.e == 0)))
            e = e + np.where(allgrid & (hist * 256 < _LIM), 0.0, 4 * U * np.cumsum(np.abs(np.where(np.isfinite(v), v, 0))).astype(float))
        v = np.where(nan, LD(np.nan), v)
        # once infinite: inf or nan (inf-inf) - claim nothing
        infs = np.logical_or.accumulate(np.isinf(x))
        e = np.where(infs, np.inf, e)
        return S(v, e)


def _abs(v):
    return np.abs(v)


def _fin(e, v):
    return np.where(np.isfinite(v), e, np.where(np.isinf(e), e, 0.0))


def _rnd(v, exact_in):
    with np.errstate(all="ignore"):
        r = np.where(np.isfinite(v), 2 * U * np.abs(v).astype(float) + 1e-320, 0.0)
        g = exact_in & _grid(np.where(np.isfinite(v), v, 0))
    return np.where(g, 0.0, r)


def _mk(v, e, *ops):
    """propagate undetermined-ness: an undetermined operand makes the result
    undetermined unless another operand is determined missing."""
    v = np.asarray(v)
    und = np.zeros(v.shape, bool)
    nan = np.zeros(v.shape, bool)
    for o in ops:
        und = und | np.broadcast_to(np.isinf(o.e), v.shape)
        nan = nan | np.broadcast_to(np.isnan(o.v) & ~np.isinf(o.e), v.shape)
    with np.errstate(all="ignore"):
        e = np.where(und | np.isinf(e), np.inf, e)
        e = np.where(nan, 0.0, e)
        v = np.where(nan, LD(np.nan), v)
        # inf-inf etc. from infinite finite-e operands stays a determined nan
        e = np.where(np.isnan(e), np.inf, e)
    return S(v, e)


def const(x, n):
    return S(np.full(n, LD(x)))


def select(cond, a, b):
    """cond ternary; unknown -> hull if both sides finite & determined, else undetermined"""
    n = len(cond)
    a = S(np.broadcast_to(a.v, n), np.broadcast_to(a.e, n)) if isinstance(a, S) else const(a, n)
    b = S(np.broadcast_to(b.v, n), np.broadcast_to(b.e, n)) if isinstance(b, S) else const(b, n)
    v = np.where(cond == 1, a.v, b.v)
    e = np.where(cond == 1, a.e, b.e)
    e = np.where(cond == -1, np.inf, e)
    return S(v, e)


def maximum(*xs, skipna=False):
    return _ext(np.maximum, np.fmax, xs, skipna)


def minimum(*xs, skipna=False):
    return _ext(np.minimum, np.fmin, xs, skipna)


def _ext(f, fn, xs, skipna):
    v = xs[0].v
    e = xs[0].e
    with np.errstate(all="ignore"):
        for o in xs[1:]:
            nv = (fn if skipna else f)(v, o.v)
            # error: max of both errors (safe)
            ne = np.maximum(np.where(np.isnan(v), 0, e), np.where(np.isnan(o.v), 0, o.e))
            v, e = nv, ne
    e = np.where(np.isnan(v), 0.0, e)
    for o in xs:
        e = np.where(np.isinf(o.e), np.inf, e)
    return S(v, e)


def fill(x, how, close=None):
    """the documented filling: infinities count as missing, forward fill, then the
    neutral constant ('back' = backward from the first defined value, else 0)."""
    n = len(x)
    v = x.v.copy(); e = x.e.copy()
    inf = np.isinf(v) & ~np.isinf(e)
    v[inf] = np.nan; e[inf] = 0
    for t in range(1, n):
        if np.isnan(v[t]) and not np.isinf(e[t]):
            v[t] = v[t - 1]; e[t] = e[t - 1]
    # leading
    lead = np.isnan(v) & ~np.isinf(e)
    if how == "back":
        first = None
        und_first = False
        for t in range(n):
            if np.isinf(e[t]):
                und_first = True
                break
            if not np.isnan(v[t]):
                first = t
                break
        for t in range(n):
            if lead[t]:
                if und_first:
                    e[t] = np.inf
                elif first is not None:
                    v[t] = v[first]; e[t] = e[first]
                else:
                    v[t] = 0; e[t] = 0
    elif how == "close":
        v = np.where(lead, close.v, v)
    elif how is None:
        pass
    else:
        v = np.where(lead, LD(how), v)
    return S(v, e)


K = 32.0


def compare(got, ref):
    """-> (mismatch index or None, cells decided to 3 digits or better, cells left (nearly) undetermined)"""
    got = np.asarray(got, dtype=np.float64)
    n = len(ref)
    if got.shape != (n,):
        return 0, 0, 0
    v = ref.v; e = ref.e
    und = np.isinf(e)
    with np.errstate(all="ignore"):
        tol = K * e + 8 * U * np.abs(np.where(np.isfinite(v), v, 0)).astype(float)
        strong = ~und & (~np.isfinite(v) | (tol <= 1e-3 * np.abs(np.where(np.isfinite(v), v, 0)).astype(float)))
        nan = np.isnan(v)
        inf = np.isinf(v)
        bad_nan = nan & ~np.isnan(got)
        bad_inf = inf & ~(got == v.astype(float))
        d = np.abs(got.astype(LD) - v)
        bad_fin = ~nan & ~inf & ~(d <= tol)
    bad = (bad_nan | bad_inf | bad_fin) & ~und
    idx = np.flatnonzero(bad)
    return (int(idx[0]) if len(idx) else None), int(strong.sum()), int(n - strong.sum())
