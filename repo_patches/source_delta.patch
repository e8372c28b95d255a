From f30279639737ab39fbc854571d8e49d4af8673ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 01/27] fix: PSAR must write by position, not by row label

`self._psar[i] = high2` addresses the row labelled i: on an integer index that is
not 0..n-1 it changed another bar or appended a row.
---
 ta/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index 553afad..8cd8623 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -1027,7 +1027,7 @@ class PSARIndicator(IndicatorMixin):
                     high1 = self._high.iloc[i - 1]
                     high2 = self._high.iloc[i - 2]
                     if high2 > self._psar.iloc[i]:
-                        self._psar[i] = high2
+                        self._psar.iloc[i] = high2
                     elif high1 > self._psar.iloc[i]:
                         self._psar.iloc[i] = high1
 
-- 
2.43.0


From 47117463084002e1cda7510fb7ddce3b12e9b645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 02/27] fix: PSAR stays outside the range of both previous bars

With `elif` the SAR was clamped to the bar before the previous one only, and could
remain inside the previous bar's range.
---
 ta/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 8cd8623..6186208 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -1005,7 +1005,7 @@ class PSARIndicator(IndicatorMixin):
                     low2 = self._low.iloc[i - 2]
                     if low2 < self._psar.iloc[i]:
                         self._psar.iloc[i] = low2
-                    elif low1 < self._psar.iloc[i]:
+                    if low1 < self._psar.iloc[i]:
                         self._psar.iloc[i] = low1
             else:
                 self._psar.iloc[i] = self._psar.iloc[i - 1] - (
@@ -1028,7 +1028,7 @@ class PSARIndicator(IndicatorMixin):
                     high2 = self._high.iloc[i - 2]
                     if high2 > self._psar.iloc[i]:
                         self._psar.iloc[i] = high2
-                    elif high1 > self._psar.iloc[i]:
+                    if high1 > self._psar.iloc[i]:
                         self._psar.iloc[i] = high1
 
             up_trend = up_trend != reversal  # XOR
-- 
2.43.0


From 589a5664a36e52351546fa0b2f9403fa94390c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 03/27] fix: PSAR is a float series for whole-number prices

Writing SAR values into an integer copy of close relies on a deprecated upcast.
---
 ta/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index 6186208..b401250 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -974,7 +974,7 @@ class PSARIndicator(IndicatorMixin):
         up_trend_high = self._high.iloc[0]
         down_trend_low = self._low.iloc[0]
 
-        self._psar = self._close.copy()
+        self._psar = self._close.astype("float64")
         self._psar_up = pd.Series(index=self._psar.index, dtype="float64")
         self._psar_down = pd.Series(index=self._psar.index, dtype="float64")
 
-- 
2.43.0


From 05825115900127547c1eead57e860e69d5a09a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 04/27] fix: ATR seeds from the first bars by position

`true_range[0:window]` slices by label on a float index.
---
 ta/volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index 3bbf57e..ff82287 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -47,7 +47,7 @@ class AverageTrueRange(IndicatorMixin):
         close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         atr = np.zeros(len(self._close))
-        atr[self._window - 1] = true_range[0 : self._window].mean()
+        atr[self._window - 1] = true_range.iloc[0 : self._window].mean()
         for i in range(self._window, len(atr)):
             atr[i] = (atr[i - 1] * (self._window - 1) + true_range.iloc[i]) / float(
                 self._window
-- 
2.43.0


From d48b7a6a5e969c63c5afea0a67ead415a3cf0ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 05/27] fix: ATR on a history shorter than its window reports 0
 instead of raising IndexError

---
 ta/volatility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index ff82287..dbcbd18 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -47,7 +47,8 @@ class AverageTrueRange(IndicatorMixin):
         close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         atr = np.zeros(len(self._close))
-        atr[self._window - 1] = true_range.iloc[0 : self._window].mean()
+        if len(atr) >= self._window:
+            atr[self._window - 1] = true_range.iloc[0 : self._window].mean()
         for i in range(self._window, len(atr)):
             atr[i] = (atr[i - 1] * (self._window - 1) + true_range.iloc[i]) / float(
                 self._window
-- 
2.43.0


From 45a7f2cd3a09e9ec6c1df15938312f3d16e7c435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 06/27] fix: ADX on a history shorter than its look-back
 reports 0 instead of raising

---
 ta/trend.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index b401250..f9a60bc 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -726,9 +726,10 @@ class ADXIndicator(IndicatorMixin):
 
         diff_directional_movement = pdm - pdn
 
-        self._trs_initial = np.zeros(self._window - 1)
-        self._trs = np.zeros(len(self._close) - (self._window - 1))
-        self._trs[0] = diff_directional_movement.dropna().iloc[0 : self._window].sum()
+        n_values = max(len(self._close) - (self._window - 1), 0)
+        self._trs_initial = np.zeros(len(self._close) - n_values)
+        self._trs = np.zeros(n_values)
+        self._trs[:1] = diff_directional_movement.dropna().iloc[0 : self._window].sum()
         diff_directional_movement = diff_directional_movement.reset_index(drop=True)
 
         for i in range(1, len(self._trs) - 1):
@@ -744,8 +745,8 @@ class ADXIndicator(IndicatorMixin):
         pos = abs(((diff_up > diff_down) & (diff_up > 0)) * diff_up)
         neg = abs(((diff_down > diff_up) & (diff_down > 0)) * diff_down)
 
-        self._dip = np.zeros(len(self._close) - (self._window - 1))
-        self._dip[0] = pos.dropna().iloc[0 : self._window].sum()
+        self._dip = np.zeros(n_values)
+        self._dip[:1] = pos.dropna().iloc[0 : self._window].sum()
 
         pos = pos.reset_index(drop=True)
 
@@ -756,8 +757,8 @@ class ADXIndicator(IndicatorMixin):
                 + pos[self._window + i]
             )
 
-        self._din = np.zeros(len(self._close) - (self._window - 1))
-        self._din[0] = neg.dropna().iloc[0 : self._window].sum()
+        self._din = np.zeros(n_values)
+        self._din[:1] = neg.dropna().iloc[0 : self._window].sum()
 
         neg = neg.reset_index(drop=True)
 
@@ -804,7 +805,8 @@ class ADXIndicator(IndicatorMixin):
                 directional_index[idx] = 0
 
         adx_series = np.zeros(len(self._trs))
-        adx_series[self._window] = directional_index[0 : self._window].mean()
+        if len(adx_series) > self._window:
+            adx_series[self._window] = directional_index[0 : self._window].mean()
 
         for i in range(self._window + 1, len(adx_series)):
             adx_series[i] = (
-- 
2.43.0


From beb96f78be639d0a1f5a01cc5d44d50650930245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 07/27] fix: +DI and -DI report their first defined bar

The values seeded from the first full window of changes were computed (and used
by ADX) but left at the placeholder 0 in +DI/-DI.
---
 ta/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index f9a60bc..7a0b777 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -827,7 +827,7 @@ class ADXIndicator(IndicatorMixin):
         """
         dip = np.zeros(len(self._close))
 
-        for i in range(1, len(self._trs) - 1):
+        for i in range(0, len(self._trs) - 1):
             if self._trs[i] != 0:
                 dip[i + self._window] = 100 * (self._dip[i] / self._trs[i])
 
@@ -848,7 +848,7 @@ class ADXIndicator(IndicatorMixin):
         """
         din = np.zeros(len(self._close))
 
-        for i in range(1, len(self._trs) - 1):
+        for i in range(0, len(self._trs) - 1):
             if self._trs[i] != 0:
                 din[i + self._window] = 100 * (self._din[i] / self._trs[i])
 
-- 
2.43.0


From 22ab630fc7172036f9dab35592d452a0c555fcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 08/27] fix: KAMA of whole-number prices

An integer close made the efficiency ratio an integer array, truncating it (or
raising for the float division).
---
 ta/momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index 69a4cda..5598ec3 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -315,7 +315,7 @@ class KAMAIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        close_values = self._close.values
+        close_values = self._close.values.astype("float64")
         vol = pd.Series(abs(self._close - np.roll(self._close, 1)))
 
         min_periods = 0 if self._fillna else self._window
-- 
2.43.0


From 33b53621855af5b563a4db7935319780a999ce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 09/27] fix: KAMA does not wrap the last closes around to the
 first bars

np.roll feeds the end of the history into the change and volatility of the first
bars, so that with fillna=True the whole line depends on future prices.
---
 ta/momentum.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index 5598ec3..b3eb147 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -316,10 +316,11 @@ class KAMAIndicator(IndicatorMixin):
 
     def _run(self):
         close_values = self._close.values.astype("float64")
-        vol = pd.Series(abs(self._close - np.roll(self._close, 1)))
+        vol = self._close.diff().abs().fillna(0.0)
 
         min_periods = 0 if self._fillna else self._window
-        er_num = abs(close_values - np.roll(close_values, self._window))
+        close_before = self._close.shift(self._window).fillna(close_values[0])
+        er_num = abs(close_values - close_before.values)
         er_den = vol.rolling(self._window, min_periods=min_periods).sum()
         efficiency_ratio = np.divide(
             er_num, er_den, out=np.zeros_like(er_num), where=er_den != 0
-- 
2.43.0


From d8b4ff45f5b18ec92cfc91a89d6a515041cd6b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 10/27] fix: KST does not mix the mean of the whole history
 into its first bars

The bars before the rate-of-change look-back were padded with close.mean(), which
includes future prices and reached reported bars also with fillna=False.
---
 ta/trend.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 7a0b777..645c746 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -495,44 +495,32 @@ class KSTIndicator(IndicatorMixin):
         min_periods_n4 = 0 if self._fillna else self._window4
         rocma1 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r1, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r1, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r1))
+                / self._close.shift(self._r1)
             )
             .rolling(self._window1, min_periods=min_periods_n1)
             .mean()
         )
         rocma2 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r2, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r2, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r2))
+                / self._close.shift(self._r2)
             )
             .rolling(self._window2, min_periods=min_periods_n2)
             .mean()
         )
         rocma3 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r3, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r3, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r3))
+                / self._close.shift(self._r3)
             )
             .rolling(self._window3, min_periods=min_periods_n3)
             .mean()
         )
         rocma4 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r4, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r4, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r4))
+                / self._close.shift(self._r4)
             )
             .rolling(self._window4, min_periods=min_periods_n4)
             .mean()
-- 
2.43.0


From 981331c67c49a97690ca8ea553fe9266e8d5f486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 11/27] fix: displaced Ichimoku spans do not start with the
 mean of the whole history

The bars before the displacement were filled with the mean over future bars, even
with fillna=False.
---
 ta/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 645c746..57f3753 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -411,7 +411,7 @@ class IchimokuIndicator(IndicatorMixin):
         """
         spana = 0.5 * (self._conv + self._base)
         spana = (
-            spana.shift(self._window2, fill_value=spana.mean())
+            spana.shift(self._window2)
             if self._visual
             else spana
         )
@@ -429,7 +429,7 @@ class IchimokuIndicator(IndicatorMixin):
             + self._low.rolling(self._window3, min_periods=0).min()
         )
         spanb = (
-            spanb.shift(self._window2, fill_value=spanb.mean())
+            spanb.shift(self._window2)
             if self._visual
             else spanb
         )
-- 
2.43.0


From dec543ca4c4a1c987c9f7ce3720c0c3f0cfa2375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 12/27] fix: TRIX does not compare the first bar with the mean
 of the whole history

---
 ta/trend.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 57f3753..8285574 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -270,9 +270,7 @@ class TRIXIndicator(IndicatorMixin):
         ema1 = _ema(self._close, self._window, self._fillna)
         ema2 = _ema(ema1, self._window, self._fillna)
         ema3 = _ema(ema2, self._window, self._fillna)
-        self._trix = (ema3 - ema3.shift(1, fill_value=ema3.mean())) / ema3.shift(
-            1, fill_value=ema3.mean()
-        )
+        self._trix = (ema3 - ema3.shift(1)) / ema3.shift(1)
         self._trix *= 100
 
     def trix(self) -> pd.Series:
-- 
2.43.0


From 045d054dffde2efcf2cbce2817627997d8e027d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 13/27] fix: DPO does not use the mean of the whole history for
 its first bars

---
 ta/trend.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 8285574..3046b86 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -582,9 +582,7 @@ class DPOIndicator(IndicatorMixin):
     def _run(self):
         min_periods = 0 if self._fillna else self._window
         self._dpo = (
-            self._close.shift(
-                int((0.5 * self._window) + 1), fill_value=self._close.mean()
-            )
+            self._close.shift(int((0.5 * self._window) + 1))
             - self._close.rolling(self._window, min_periods=min_periods).mean()
         )
 
-- 
2.43.0


From ba77cf53fba88dd814fd42efbb561d606b80e28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:00 +0000
Subject: [PATCH 14/27] fix: Vortex does not use the mean of the whole history
 as close before the first bar

---
 ta/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index 3046b86..d73df1d 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -879,7 +879,7 @@ class VortexIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        close_shift = self._close.shift(1, fill_value=self._close.mean())
+        close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         min_periods = 0 if self._fillna else self._window
         trn = true_range.rolling(self._window, min_periods=min_periods).sum()
-- 
2.43.0


From b8d9b38e15f6d74ca7cdfb0c8ba1c2f55578ba1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 15/27] fix: Aroon counts the bars since the extreme in partial
 windows too

With fillna=True the first bars counted from the start of the shorter window, so
that a new high gave Aroon Up 0 instead of 100.
---
 ta/trend.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index d73df1d..0f07fc2 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -44,12 +44,16 @@ class AroonIndicator(IndicatorMixin):
 
         rolling_high = self._high.rolling(self._window + 1, min_periods=min_periods)
         self._aroon_up = rolling_high.apply(
-            lambda x: float(np.argmax(x)) / self._window * 100, raw=True
+            lambda x: float(self._window + 1 - len(x) + np.argmax(x))
+            / self._window
+            * 100, raw=True
         )
 
         rolling_low = self._low.rolling(self._window + 1, min_periods=min_periods)
         self._aroon_down = rolling_low.apply(
-            lambda x: float(np.argmin(x)) / self._window * 100, raw=True
+            lambda x: float(self._window + 1 - len(x) + np.argmin(x))
+            / self._window
+            * 100, raw=True
         )
 
     def aroon_up(self) -> pd.Series:
-- 
2.43.0


From 693550ba23e751da351edc6c5b279a0f8b215a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 16/27] fix: Donchian channel fills after the offset, not
 before it

With fillna=True and an offset the shifted-in bars stayed NaN.
---
 ta/volatility.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index dbcbd18..bb80bcd 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -377,9 +377,10 @@ class DonchianChannel(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
-        hband = self._check_fillna(self._hband, value=-1)
+        hband = self._hband
         if self._offset != 0:
             hband = hband.shift(self._offset)
+        hband = self._check_fillna(hband, value=-1)
         return pd.Series(hband, name="dchband")
 
     def donchian_channel_lband(self) -> pd.Series:
@@ -388,9 +389,10 @@ class DonchianChannel(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
-        lband = self._check_fillna(self._lband, value=-1)
+        lband = self._lband
         if self._offset != 0:
             lband = lband.shift(self._offset)
+        lband = self._check_fillna(lband, value=-1)
         return pd.Series(lband, name="dclband")
 
     def donchian_channel_mband(self) -> pd.Series:
@@ -400,9 +402,9 @@ class DonchianChannel(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         mband = ((self._hband - self._lband) / 2.0) + self._lband
-        mband = self._check_fillna(mband, value=-1)
         if self._offset != 0:
             mband = mband.shift(self._offset)
+        mband = self._check_fillna(mband, value=-1)
         return pd.Series(mband, name="dcmband")
 
     def donchian_channel_wband(self) -> pd.Series:
@@ -413,9 +415,9 @@ class DonchianChannel(IndicatorMixin):
         """
         mavg = self._close.rolling(self._window, min_periods=self._min_periods).mean()
         wband = ((self._hband - self._lband) / mavg) * 100
-        wband = self._check_fillna(wband, value=0)
         if self._offset != 0:
             wband = wband.shift(self._offset)
+        wband = self._check_fillna(wband, value=0)
         return pd.Series(wband, name="dcwband")
 
     def donchian_channel_pband(self) -> pd.Series:
@@ -425,9 +427,9 @@ class DonchianChannel(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         pband = (self._close - self._lband) / (self._hband - self._lband)
-        pband = self._check_fillna(pband, value=0)
         if self._offset != 0:
             pband = pband.shift(self._offset)
+        pband = self._check_fillna(pband, value=0)
         return pd.Series(pband, name="dcpband")
 
 
-- 
2.43.0


From 3590e282f2f6baa0410916101415b88fb8d65a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 17/27] fix: OBV does not add volume on an unchanged close

---
 ta/volume.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ta/volume.py b/ta/volume.py
index eabf4d2..85fbed4 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -83,7 +83,9 @@ class OnBalanceVolumeIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        obv = np.where(self._close < self._close.shift(1), -self._volume, self._volume)
+        close_shift = self._close.shift(1)
+        obv = np.where(self._close < close_shift, -self._volume, self._volume)
+        obv = np.where(self._close == close_shift, 0, obv)
         self._obv = pd.Series(obv, index=self._close.index).cumsum()
 
     def on_balance_volume(self) -> pd.Series:
-- 
2.43.0


From 4a2811717e0c3a3a6bb44d5514917e2f4f615cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 18/27] fix: Keltner bands respect fillna=False

The upper and lower band of the original version were reported from partial
windows while the middle band was still NaN.
---
 ta/volatility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index bb80bcd..4c98f8d 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -234,12 +234,12 @@ class KeltnerChannel(IndicatorMixin):
             )
             self._tp_high = (
                 (((4 * self._high) - (2 * self._low) + self._close) / 3.0)
-                .rolling(self._window, min_periods=0)
+                .rolling(self._window, min_periods=min_periods)
                 .mean()
             )
             self._tp_low = (
                 (((-2 * self._high) + (4 * self._low) + self._close) / 3.0)
-                .rolling(self._window, min_periods=0)
+                .rolling(self._window, min_periods=min_periods)
                 .mean()
             )
         else:
-- 
2.43.0


From 85f5b4609fa26e28187aa679a9eaf553eab65f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 19/27] fix: Ichimoku span B respects fillna=False

It was reported from partial windows while the other lines were still NaN.
---
 ta/trend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 0f07fc2..6a3b0ce 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -426,9 +426,10 @@ class IchimokuIndicator(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
+        min_periods = 0 if self._fillna else self._window3
         spanb = 0.5 * (
-            self._high.rolling(self._window3, min_periods=0).max()
-            + self._low.rolling(self._window3, min_periods=0).min()
+            self._high.rolling(self._window3, min_periods=min_periods).max()
+            + self._low.rolling(self._window3, min_periods=min_periods).min()
         )
         spanb = (
             spanb.shift(self._window2)
-- 
2.43.0


From 46cbe9c735d6e55f7c1b92d907e70a8be4cc6023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 20/27] fix: KST signal respects fillna=False

It was reported from partial windows.
---
 ta/trend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index 6a3b0ce..df155da 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -529,7 +529,10 @@ class KSTIndicator(IndicatorMixin):
             .mean()
         )
         self._kst = 100 * (rocma1 + 2 * rocma2 + 3 * rocma3 + 4 * rocma4)
-        self._kst_sig = self._kst.rolling(self._nsig, min_periods=0).mean()
+        min_periods_sig = 0 if self._fillna else self._nsig
+        self._kst_sig = self._kst.rolling(
+            self._nsig, min_periods=min_periods_sig
+        ).mean()
 
     def kst(self) -> pd.Series:
         """Know Sure Thing (KST)
-- 
2.43.0


From e9942801069a8b7e61c252058789319fbc670ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 21/27] fix: fillna=True leaves no NaN when there is nothing to
 backfill from

Lines without any defined value (SAR line of the other side, displaced Ichimoku
spans of a short history) stayed entirely NaN.
---
 ta/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/utils.py b/ta/utils.py
index 9f93bab..97766ca 100644
--- a/ta/utils.py
+++ b/ta/utils.py
@@ -30,7 +30,7 @@ class IndicatorMixin:
             series_output = series.copy(deep=False)
             series_output = series_output.replace([np.inf, -np.inf], np.nan)
             if isinstance(value, int) and value == -1:
-                series = series_output.ffill().bfill()
+                series = series_output.ffill().bfill().fillna(0)
             else:
                 series = series_output.ffill().fillna(value)
         return series
-- 
2.43.0


From b94984a2d7b7e92bb0eda3affbc9292fa0af2f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 22/27] fix: dropna keeps surviving integer cells exact

---
 ta/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ta/utils.py b/ta/utils.py
index 97766ca..92160f7 100644
--- a/ta/utils.py
+++ b/ta/utils.py
@@ -48,10 +48,9 @@ class IndicatorMixin:
 
 def dropna(df: pd.DataFrame) -> pd.DataFrame:
     """Drop rows with "Nans" values"""
-    df = df.copy()
-    number_cols = df.select_dtypes(include=np.number).columns.tolist()
-    df[number_cols] = df[number_cols][df[number_cols] < math.exp(709)]  # big number
-    df[number_cols] = df[number_cols][df[number_cols] != 0.0]
+    numbers = df.select_dtypes(include=np.number)
+    usable = (numbers < math.exp(709)) & (numbers != 0.0)  # big number
+    df = df[usable.all(axis=1)]
     df = df.dropna()
     return df
 
-- 
2.43.0


From 8a7ff302b2adec7674ac07df53e0b4e1f416369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 23/27] fix: dropna accepts frames with timedelta columns

---
 ta/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/utils.py b/ta/utils.py
index 92160f7..9dd7f33 100644
--- a/ta/utils.py
+++ b/ta/utils.py
@@ -48,7 +48,7 @@ class IndicatorMixin:
 
 def dropna(df: pd.DataFrame) -> pd.DataFrame:
     """Drop rows with "Nans" values"""
-    numbers = df.select_dtypes(include=np.number)
+    numbers = df.select_dtypes(include=np.number, exclude="timedelta")
     usable = (numbers < math.exp(709)) & (numbers != 0.0)  # big number
     df = df[usable.all(axis=1)]
     df = df.dropna()
-- 
2.43.0


From 66f385c07c99bc57fc6727c05fb171e9ddb52a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 24/27] fix: a returned line no longer shares storage with its
 indicator

Without filling, an indicator handed out its own internal series, so changing
the result (for instance in-place fillna) changed what the object reported
afterwards.
---
 ta/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ta/utils.py b/ta/utils.py
index 9dd7f33..c6a226a 100644
--- a/ta/utils.py
+++ b/ta/utils.py
@@ -33,6 +33,8 @@ class IndicatorMixin:
                 series = series_output.ffill().bfill().fillna(0)
             else:
                 series = series_output.ffill().fillna(value)
+        else:
+            series = series.copy()
         return series
 
     @staticmethod
-- 
2.43.0


From 896f40bff13d4a1b129f94b596401ea7ae4dd636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 25/27] fix: compute with floats where narrow or unsigned
 integers overflow

RSI, KAMA, AO, Keltner channel, CCI, ADI, OBV, CMF, EoM, MFI, VWAP and the
daily log return did integer arithmetic on the caller's type: unsigned
volumes or prices wrapped around below zero and 8/16 bit ones overflowed.
---
 ta/momentum.py   |  8 ++++----
 ta/others.py     |  2 +-
 ta/trend.py      |  6 +++---
 ta/volatility.py |  6 +++---
 ta/volume.py     | 42 +++++++++++++++++++++---------------------
 5 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index b3eb147..6477a31 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -28,7 +28,7 @@ class RSIIndicator(IndicatorMixin):
     """
 
     def __init__(self, close: pd.Series, window: int = 14, fillna: bool = False):
-        self._close = close
+        self._close = close.astype("float64")
         self._window = window
         self._fillna = fillna
         self._run()
@@ -307,7 +307,7 @@ class KAMAIndicator(IndicatorMixin):
         pow2: int = 30,
         fillna: bool = False,
     ):
-        self._close = close
+        self._close = close.astype("float64")
         self._window = window
         self._pow1 = pow1
         self._pow2 = pow2
@@ -448,8 +448,8 @@ class AwesomeOscillatorIndicator(IndicatorMixin):
         window2: int = 34,
         fillna: bool = False,
     ):
-        self._high = high
-        self._low = low
+        self._high = high.astype("float64")
+        self._low = low.astype("float64")
         self._window1 = window1
         self._window2 = window2
         self._fillna = fillna
diff --git a/ta/others.py b/ta/others.py
index c986b14..2ba35ae 100644
--- a/ta/others.py
+++ b/ta/others.py
@@ -49,7 +49,7 @@ class DailyLogReturnIndicator(IndicatorMixin):
     """
 
     def __init__(self, close: pd.Series, fillna: bool = False):
-        self._close = close
+        self._close = close.astype("float64")
         self._fillna = fillna
         self._run()
 
diff --git a/ta/trend.py b/ta/trend.py
index df155da..f8afbd0 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -633,9 +633,9 @@ class CCIIndicator(IndicatorMixin):
         constant: float = 0.015,
         fillna: bool = False,
     ):
-        self._high = high
-        self._low = low
-        self._close = close
+        self._high = high.astype("float64")
+        self._low = low.astype("float64")
+        self._close = close.astype("float64")
         self._window = window
         self._constant = constant
         self._fillna = fillna
diff --git a/ta/volatility.py b/ta/volatility.py
index 4c98f8d..23ed450 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -214,9 +214,9 @@ class KeltnerChannel(IndicatorMixin):
         original_version: bool = True,
         multiplier: int = 2,
     ):
-        self._high = high
-        self._low = low
-        self._close = close
+        self._high = high.astype("float64")
+        self._low = low.astype("float64")
+        self._close = close.astype("float64")
         self._window = window
         self._window_atr = window_atr
         self._fillna = fillna
diff --git a/ta/volume.py b/ta/volume.py
index 85fbed4..14e2a08 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -37,10 +37,10 @@ class AccDistIndexIndicator(IndicatorMixin):
         volume: pd.Series,
         fillna: bool = False,
     ):
-        self._high = high
-        self._low = low
-        self._close = close
-        self._volume = volume
+        self._high = high.astype("float64")
+        self._low = low.astype("float64")
+        self._close = close.astype("float64")
+        self._volume = volume.astype("float64")
         self._fillna = fillna
         self._run()
 
@@ -77,8 +77,8 @@ class OnBalanceVolumeIndicator(IndicatorMixin):
     """
 
     def __init__(self, close: pd.Series, volume: pd.Series, fillna: bool = False):
-        self._close = close
-        self._volume = volume
+        self._close = close.astype("float64")
+        self._volume = volume.astype("float64")
         self._fillna = fillna
         self._run()
 
@@ -123,10 +123,10 @@ class ChaikinMoneyFlowIndicator(IndicatorMixin):
         window: int = 20,
         fillna: bool = False,
     ):
-        self._high = high
-        self._low = low
-        self._close = close
-        self._volume = volume
+        self._high = high.astype("float64")
+        self._low = low.astype("float64")
+        self._close = close.astype("float64")
+        self._volume = volume.astype("float64")
         self._window = window
         self._fillna = fillna
         self._run()
@@ -220,9 +220,9 @@ class EaseOfMovementIndicator(IndicatorMixin):
         window: int = 14,
         fillna: bool = False,
     ):
-        self._high = high
-        self._low = low
-        self._volume = volume
+        self._high = high.astype("float64")
+        self._low = low.astype("float64")
+        self._volume = volume.astype("float64")
         self._window = window
         self._fillna = fillna
         self._run()
@@ -378,10 +378,10 @@ class MFIIndicator(IndicatorMixin):
         window: int = 14,
         fillna: bool = False,
     ):
-        self._high = high
-        self._low = low
-        self._close = close
-        self._volume = volume
+        self._high = high.astype("float64")
+        self._low = low.astype("float64")
+        self._close = close.astype("float64")
+        self._volume = volume.astype("float64")
         self._window = window
         self._fillna = fillna
         self._run()
@@ -455,10 +455,10 @@ class VolumeWeightedAveragePrice(IndicatorMixin):
         window: int = 14,
         fillna: bool = False,
     ):
-        self._high = high
-        self._low = low
-        self._close = close
-        self._volume = volume
+        self._high = high.astype("float64")
+        self._low = low.astype("float64")
+        self._close = close.astype("float64")
+        self._volume = volume.astype("float64")
         self._window = window
         self._fillna = fillna
         self._run()
-- 
2.43.0


From 30595f18bb92bd9435eaf8445048ed4ddec63208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 26/27] fix: parabolic SAR flags an up-trend that starts at a
 value of exactly zero

---
 ta/trend.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index f8afbd0..b44a151 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -1065,10 +1065,8 @@ class PSARIndicator(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
-        indicator = self._psar_up.where(
-            self._psar_up.notnull() & self._psar_up.shift(1).isnull(), 0
-        )
-        indicator = indicator.where(indicator == 0, 1)
+        started = self._psar_up.notnull() & self._psar_up.shift(1).isnull()
+        indicator = started.astype("float64")
         return pd.Series(indicator, index=self._close.index, name="psariup")
 
     def psar_down_indicator(self) -> pd.Series:
-- 
2.43.0


From 706445fd79830d16f19716153ef69f6b8a6e0a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:26 +0000
Subject: [PATCH 27/27] fix: windows and weights given as narrow NumPy integers
 overflowed in WMA, ADX, Aroon, KAMA and the ultimate oscillator

---
 ta/momentum.py | 8 ++++----
 ta/trend.py    | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index 6477a31..bd268f8 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -167,9 +167,9 @@ class UltimateOscillator(IndicatorMixin):
         self._window1 = window1
         self._window2 = window2
         self._window3 = window3
-        self._weight1 = weight1
-        self._weight2 = weight2
-        self._weight3 = weight3
+        self._weight1 = float(weight1)
+        self._weight2 = float(weight2)
+        self._weight3 = float(weight3)
         self._fillna = fillna
         self._run()
 
@@ -328,7 +328,7 @@ class KAMAIndicator(IndicatorMixin):
 
         smoothing_constant = (
             (
-                efficiency_ratio * (2.0 / (self._pow1 + 1) - 2.0 / (self._pow2 + 1.0))
+                efficiency_ratio * (2.0 / (self._pow1 + 1.0) - 2.0 / (self._pow2 + 1.0))
                 + 2 / (self._pow2 + 1.0)
             )
             ** 2.0
diff --git a/ta/trend.py b/ta/trend.py
index b44a151..bfd3629 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -34,7 +34,7 @@ class AroonIndicator(IndicatorMixin):
     ):
         self._high = high
         self._low = low
-        self._window = window
+        self._window = int(window)
         self._fillna = fillna
         self._run()
 
@@ -218,7 +218,7 @@ class WMAIndicator(IndicatorMixin):
 
     def __init__(self, close: pd.Series, window: int = 9, fillna: bool = False):
         self._close = close
-        self._window = window
+        self._window = int(window)
         self._fillna = fillna
         self._run()
 
@@ -703,7 +703,7 @@ class ADXIndicator(IndicatorMixin):
         self._high = high
         self._low = low
         self._close = close
-        self._window = window
+        self._window = int(window)
         self._fillna = fillna
         self._run()
 
-- 
2.43.0

