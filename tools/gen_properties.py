"""Writes /verif/properties.jsonl (the hand-written property list, kept here as Python for readability)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


prop("C01", "Momentum indicators equal their published formulas on every history",
     "For every clean price/volume history and every valid parameter setting, RSI, stochastic RSI (with %K and %D), TSI, ultimate oscillator, stochastic oscillator (with signal), Williams %R, awesome oscillator, KAMA, ROC, PPO and PVO (each with signal and histogram) report at every bar the value of their documented formula, up to floating-point rounding, with gap filling off or on. "
     "Degenerate bars follow the formula: 0/0 is reported as missing (with filling on: carried forward from the last value, or the indicator's neutral value when there is none), a zero-loss RSI is 100, and a KAMA step over a window without any movement uses the slowest smoothing. "
     "Recursive averages are seeded with the first bar, never re-seeded, and no parameter, length or magnitude of the data selects a different formula.",
     ["inputs", "configurations"],
     "All cleaned OHLCV histories (any length, trend, flat stretch, tie, gap, zero-volume run, price unit) x all window/weight/power settings x fillna.",
     "The tests compare only the last five rows of one stored spreadsheet per indicator, at one parameter setting; warm-up rows, ties, flat markets, other windows and longer histories are never looked at, and several lines (AO, stochRSI %K/%D) not at all.",
     ["ta/momentum.py", "ta/utils.py"],
     [("per-indicator computation", "ta/momentum.py: the _run method of each indicator class"),
      ("shared exponential/simple averages and gap filling", "ta/utils.py: _ema, _sma, IndicatorMixin._check_fillna")],
     ["values returned by the indicator objects' accessor methods"])

prop("C02", "Trend averages and oscillators equal their published formulas",
     "For every clean price history and every valid parameter setting, SMA, EMA, WMA, MACD (line, signal, histogram), TRIX, mass index, KST (line, signal, difference), DPO, CCI, Schaff trend cycle and the Ichimoku lines (conversion, base, leading spans A and B, plain or displaced) report at every bar the value of their documented formula, up to floating-point rounding, with gap filling off or on. "
     "A degenerate 0/0 bar is reported as missing (with filling on: carried forward, or the neutral value if nothing precedes it). "
     "Recursive averages are seeded with the first available value, never re-seeded, and no parameter, length or magnitude of the data selects a different formula.",
     ["inputs", "configurations"],
     "All cleaned price histories x all window/cycle/constant/displacement settings x fillna.",
     "SMA, EMA, TRIX, mass index, KST, DPO and Ichimoku have no test at all; the others are compared with the last five rows of one spreadsheet at one setting.",
     ["ta/trend.py", "ta/utils.py"],
     [("per-indicator computation", "ta/trend.py: SMAIndicator, EMAIndicator, WMAIndicator, MACD, TRIXIndicator, MassIndex, KSTIndicator, DPOIndicator, CCIIndicator, STCIndicator, IchimokuIndicator"),
      ("shared averages", "ta/utils.py: _ema, _sma")],
     ["values returned by the accessor methods"])

prop("C03", "ADX, Aroon, Vortex and Parabolic SAR follow their definitions bar by bar",
     "For every clean high/low/close history and every valid setting, ADX with +DI/-DI (Wilder smoothing), Aroon up/down/difference (bars since the window's extreme, its earliest occurrence on ties), Vortex +/-/difference and Parabolic SAR (value, up and down lines, and the 0/1 flags that mark exactly the first bar of each trend) report at every bar what their documented step-by-step definition gives, up to rounding, with gap filling off or on. "
     "Wilder sums are seeded from the first full window of true one-bar changes; the SAR starts in an up-trend from the first bar, accelerates by the step up to the maximum on each new extreme, is never inside the range of the two previous bars on its own side, and flips exactly when price crosses it. "
     "The outcome depends only on this history: nothing about the number of earlier reversals, the length or magnitude of the data changes the rule.",
     ["inputs", "histories", "configurations"],
     "All cleaned OHLC histories, including any number of reversals, ties, gaps, inside/outside bars; all window, step and maximum-step settings; fillna on/off.",
     "These are state machines over the whole history; the tests check the last five rows of one 30-row (500-row for ADX) sample, with one parameter setting, and Aroon has no test.",
     ["ta/trend.py", "ta/utils.py"],
     [("Wilder recursions", "ta/trend.py: ADXIndicator"), ("rolling arg-extremes", "ta/trend.py: AroonIndicator"),
      ("movement/true-range ratios", "ta/trend.py: VortexIndicator"), ("SAR state machine", "ta/trend.py: PSARIndicator")],
     ["values returned by the accessor methods"],
     [("SAR state", "trend direction, acceleration factor, extreme point", "ta/trend.py: PSARIndicator._run"),
      ("Wilder sums", "smoothed true range and directional movement", "ta/trend.py: ADXIndicator._run")])

prop("C04", "Volatility indicators equal their published formulas",
     "For every clean price history and every valid setting, ATR (Wilder), Bollinger bands (population deviation), Keltner channel (original and ATR-based, with multiplier), Donchian channel (with offset) and the ulcer index report at every bar the value of their documented formula up to rounding, including each channel's middle, upper and lower line, width, percentage and 0/1 break-out flags, with gap filling off or on. "
     "A break-out flag is 1 exactly when the close is strictly outside that band of the same bar; a zero-width channel's percentage is missing (or filled), never infinite garbage. "
     "No parameter, length or magnitude of the data selects a different formula.",
     ["inputs", "configurations"],
     "All cleaned price histories x all windows, deviation factors, multipliers, offsets, channel versions x fillna.",
     "The tests check the last five rows of one 30-row sample per indicator at one setting; flat windows, gap bars, other multipliers/offsets, fill mode and warm-up are untouched.",
     ["ta/volatility.py", "ta/utils.py"],
     [("per-indicator computation", "ta/volatility.py: AverageTrueRange, BollingerBands, KeltnerChannel, DonchianChannel, UlcerIndex"),
      ("true range", "ta/utils.py: IndicatorMixin._true_range")],
     ["values returned by the accessor methods"])

prop("C05", "Volume indicators equal their published formulas",
     "For every clean price/volume history (zero-volume bars included) and every valid setting, accumulation/distribution, on-balance volume, Chaikin money flow, force index, ease of movement (raw and averaged), volume-price trend (plain, smoothed, with missing rows dropped on request), negative volume index, money flow index and VWAP report at every bar the value of their documented formula up to rounding, with gap filling off or on. "
     "Unchanged price neither adds to nor subtracts from on-balance volume and money flow, a bar without range contributes nothing to accumulation or money flow, and the negative volume index moves only on bars whose volume is strictly below the previous bar's. "
     "No parameter, length or magnitude of the data selects a different formula.",
     ["inputs", "configurations"],
     "All cleaned OHLCV histories with arbitrary volumes (zero runs, ties, spikes) x windows x smoothing/dropping options x fillna.",
     "Tests check the last five rows of one 30-row sample; NVI and CMF have none, and ties, doji bars, zero volume and fill mode never occur in the samples.",
     ["ta/volume.py", "ta/utils.py"],
     [("per-indicator computation", "ta/volume.py: each indicator class"), ("exponential average", "ta/utils.py: _ema")],
     ["values returned by the accessor methods"])

prop("C06", "Return indicators equal their definitions",
     "For every clean close series, the daily return is the percentage change from the previous bar, the daily log return is 100 times the difference of natural logarithms, and the cumulative return is the percentage change from the very first bar, at every bar and up to rounding. "
     "Only the first bar's daily figures are missing (0 with filling on) and the first cumulative return is 0. "
     "Compounding the daily returns (or summing the log returns) up to any bar reproduces the cumulative return of that bar.",
     ["inputs"],
     "All positive close series of any length and magnitude, fillna on/off.",
     "The return indicators have no test of any kind in the repository.",
     ["ta/others.py"],
     [("simple, log and cumulative return", "ta/others.py: DailyReturnIndicator, DailyLogReturnIndicator, CumulativeReturnIndicator")],
     ["values returned by the accessor methods and helper functions"])

prop("C07", "No look-ahead: a bar's value never depends on later bars",
     "For every indicator line, every parameter setting and every history, the value reported at a bar is the same whether the indicator is computed on the history up to that bar, on a longer history, or on one whose later bars are different. "
     "With gap filling on this holds for every bar as well, except that price-level lines that have no neutral value (channel bands, Ichimoku lines, SAR lines) may fill the bars before their first defined value backwards from it. "
     "A negative Donchian offset, by which the caller asks for a shift into the past, is the only parameter that may bring later data in.",
     ["inputs", "histories", "configurations"],
     "All histories, all cut points, all alternative futures, all indicator lines, all settings, fillna on/off.",
     "Tests evaluate each indicator once on one complete sample and look at its tail; look-ahead shows only by comparing two different futures, and only in the rows tests ignore.",
     ["ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/others.py", "ta/utils.py"],
     [("trailing windows, forward recursions, positive shifts only", "all _run methods"), ("forward fill before any backward fill", "ta/utils.py: IndicatorMixin._check_fillna")],
     ["values returned for a prefix / for the same prefix with another future"])

prop("C08", "Filling on: every indicator line is complete and finite",
     "With gap filling switched on, every line of every indicator and every column of the bulk feature builder contains only finite numbers - no missing value, no infinity - for every clean history of any length (one bar included) and every valid parameter setting, degenerate markets (flat price, zero volume, no range, one-sided trend, window longer than the history) included. "
     "Filling is a forward carry of the last defined value; before any value exists it is the line's neutral constant (or, for price-level lines, the first defined value). "
     "It never alters a value that was defined and finite.",
     ["inputs", "configurations"],
     "All cleaned histories of length >= 1, all settings, all lines; degenerate and short histories especially.",
     "Nearly all unit tests run with filling off; the one test for completeness needs a data file that is not in the repository and covers a single long, non-degenerate history.",
     ["ta/utils.py", "ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/others.py", "ta/wrapper.py"],
     [("replace infinities, forward fill, fill the rest", "ta/utils.py: IndicatorMixin._check_fillna"), ("relaxed minimum periods when filling", "min_periods expressions in every _run")],
     ["accessor results with fillna=True", "columns added by the bulk functions with fillna=True"])

prop("C09", "Filling off: no number before the look-back is full, none missing after",
     "With gap filling off, each indicator line reports a value at a bar exactly when the look-back its parameters ask for (including cascaded smoothing) is completely available at that bar: earlier bars are missing - or, for the Wilder lines ATR, ADX, +DI and -DI, the placeholder 0, and 0 for break-out and trend flags - and later bars are present unless the formula is 0/0 there (a 0/0 bar inside a cascade counts as not available to the next stage; ATR-based Keltner bands take the ATR as reported, placeholder included; the running peak of the ulcer index starts with the history). "
     "On histories without such bars the first reported bar depends only on the parameters, not on the data. "
     "Nothing is silently back-filled, forward-filled or computed from a partial window.",
     ["inputs", "configurations"],
     "All non-degenerate histories, all window combinations (equal, reversed, 1, longer than the history), all lines.",
     "Tests compare tails only, so the warm-up boundary - and its dependence on each separate window parameter - is never observed.",
     ["ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/others.py", "ta/utils.py"],
     [("minimum periods equal to the window when not filling", "min_periods expressions in every _run; ta/utils.py: _ema, _sma")],
     ["positions of missing values in accessor results with fillna=False"])

prop("C10", "Indicators are pure: inputs untouched, results independent of call history",
     "Constructing any indicator, calling any of its lines in any order and any number of times, and interleaving this with other indicators on the same data never changes the caller's series (values, type, index, name). "
     "Each line returns the same values as from a fresh object that is asked only for that line, whatever was constructed or asked before, in the same object, in another object or in another class.",
     ["histories", "inputs", "configurations"],
     "All sequences of constructions and line accesses over any set of indicators sharing the same input series, repeated accesses included.",
     "Each test builds one object and calls one line once (the class-level fixture is only compared at one line per call); aliasing and leaked state need sequences.",
     ["ta/utils.py", "ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/others.py"],
     [("computation in the constructor, copies in the accessors", "every _run and accessor method"), ("copy before filling", "ta/utils.py: IndicatorMixin._check_fillna")],
     ["input series before/after", "accessor results along a call history"],
     [("computed lines", "arrays held by an indicator object between accesses", "self._* attributes set in _run")])

prop("C11", "Function form and object form agree for every argument",
     "Every module-level function returns, for all data and all arguments (by keyword, by position, or left at their defaults), exactly what the corresponding line of the corresponding indicator object returns for those arguments: same values, same index, same name. "
     "Each argument has the effect its name says (no two swapped, none ignored), and documented defaults are used when arguments are omitted.",
     ["inputs", "configurations"],
     "All data x all argument combinations x calling styles of all 80 module-level functions.",
     "Tests call a function with one argument set, mostly the defaults, so swapped, dropped or hard-wired arguments stay invisible; a third of the functions have no test.",
     ["ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/others.py"],
     [("functions that construct the indicator and return one line", "module-level functions of the five indicator modules")],
     ["results of module-level functions versus accessor results"])

prop("C12", "Bulk feature builder: each column is the indicator it names",
     "For every clean frame, add_all_ta_features and its per-family parts add exactly the documented set of feature columns, and each column holds, bar for bar, the line of the indicator it names computed from the frame's designated high/low/close/volume columns with the standard parameters and the requested fill mode. "
     "The vectorized mode adds exactly the subset without loop-based indicators, with identical values. Columns of those names left over from an earlier run on older prices are computed anew.",
     ["inputs", "configurations"],
     "All clean frames, with or without columns of an earlier run, any assignment of column names, fillna x vectorized x which family function.",
     "The only tests of the builder need a data file absent from the repository, and they would only count columns.",
     ["ta/wrapper.py", "ta/__init__.py"],
     [("column assignments with explicit parameters", "ta/wrapper.py: add_volume_ta, add_volatility_ta, add_trend_ta, add_momentum_ta, add_others_ta, add_all_ta_features")],
     ["columns of the returned frame"])

prop("C13", "Row labels and integer data make no difference",
     "Every line of every indicator, and the bulk feature builder, treats its input purely by position: the result carries exactly the input's row labels in the same order, and its values do not depend on what those labels are (default range, shifted or unordered integers, floats, dates with or without time zone, strings, repeated labels). "
     "Whole-number prices and volumes stored as integers (8 to 64 bits wide, with or without sign) give the same values as the same numbers stored as floats.",
     ["inputs", "configurations"],
     "All histories x all kinds of row labels x integer or float storage, all lines, all settings.",
     "All test data are floats on the default 0..n-1 labels; label-based slips only show on other labels, typically after rows were filtered out, which is what the documented clean-up step does.",
     ["ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/others.py", "ta/utils.py", "ta/wrapper.py"],
     [("positional access", "iloc and raw-array use in ADXIndicator, PSARIndicator, AverageTrueRange, KAMAIndicator, NegativeVolumeIndexIndicator"), ("index re-attachment", "pd.Series(..., index=self._close.index)")],
     ["index and values of results for relabelled or retyped copies of the same data"])

prop("C14", "Units make no difference: price and volume rescaling",
     "Multiplying all prices of a history by a positive constant leaves every dimensionless line (oscillators, ratios, percentages, flags) unchanged and multiplies every price-valued line by that constant; multiplying all volumes by a positive constant leaves volume-independent and volume-normalised lines unchanged and multiplies volume-valued lines by it. "
     "This holds for arbitrarily small and large units (micro-priced tokens as well as index levels), so no line hides an absolute threshold, rounding step or offset.",
     ["inputs", "configurations"],
     "All histories x all scale factors over many orders of magnitude x all lines and settings, fillna on/off (up to constant fill values).",
     "Test samples all have prices between 10 and 200 with 4 decimals; absolute thresholds or rounding far from that range are invisible.",
     ["ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/others.py"],
     [("homogeneous formulas", "every _run")],
     ["results on a history and on its rescaled copy"])

prop("C15", "Indicator values stay in their documented range and order",
     "On every valid OHLCV history: RSI, stochastic and its signal, MFI, ultimate oscillator, Aroon up/down, ADX, +DI, -DI and STC lie in [0, 100], Williams %R in [-100, 0], TSI and Aroon difference in [-100, 100], stochastic RSI lines in [0, 1], CMF in [-1, 1], and ATR, ulcer index, mass index, NVI and Vortex lines are not negative. "
     "SMA, EMA, WMA, KAMA and VWAP stay within the range of the prices they average, lower band <= middle band <= upper band for every channel, the Donchian channel contains every high and low of its window, and break-out and trend flags are 0 or 1. "
     "From the third bar on exactly one of the two SAR lines is defined, and except on the bar of a reversal the SAR lies below (up-trend) or above (down-trend) that bar.",
     ["inputs", "configurations"],
     "All histories with low <= open, close <= high and non-negative volume; all settings; fillna on/off where the fill value lies in the range.",
     "Range violations come from unusual inputs (gaps beyond the previous range, flat runs, new extremes at a reversal), which 30-row samples do not contain.",
     ["ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py"],
     [("normalising ratios", "RSI, stochastic, MFI, UO, ADX, CMF ... computations"), ("band constructions", "ta/volatility.py")],
     ["accessor results"])

prop("C16", "Clean-up keeps exactly the usable rows",
     "The clean-up helper returns, for every frame, exactly the rows in which no cell is missing and no numeric cell (integer or float) is zero, positive infinity or astronomically large (about 8e307), in their original order with labels, columns and the surviving values unchanged. "
     "It never modifies its argument, and cleaning a cleaned frame changes nothing.",
     ["inputs"],
     "All frames: any mix of numeric and non-numeric columns, missing/zero/huge/infinite cells anywhere, any row labels, no rows or no numeric columns.",
     "The helper is only called as set-up by a test whose data file is absent; nothing checks which rows survive.",
     ["ta/utils.py"],
     [("mask then drop", "ta/utils.py: dropna")],
     ["returned frame and argument after the call"])

prop("C17", "Composite lines agree with the lines they are made of",
     "On every history and setting, lines that are defined in terms of other reported lines agree with them bar by bar: MACD, PPO, PVO and KST differences equal line minus signal; signal lines are the stated moving average of the reported line; Williams %R equals the same-window stochastic minus 100; Aroon and Vortex differences equal up minus down; leading span A is the mean of conversion and base line. "
     "Channel widths and percentages, middle lines and break-out flags of Bollinger, Keltner and Donchian channels follow from the reported upper, lower and middle lines and the close; stochastic RSI is the stochastic transform of the reported RSI and its %K/%D are successive means; the averaged ease of movement is the mean of the raw one; the MACD line is the difference of the two reported EMAs (PPO and PVO their percentage difference) and the awesome oscillator that of two SMAs of the mid price; the Keltner middle line is the reported SMA of the typical price or EMA of the close, its ATR-based bands lie the multiple of the reported ATR around it; ADX is the Wilder average of the directional index formed from the reported +DI and -DI; smoothed volume-price trend and force index are the averages of their unsmoothed lines; the cumulative return compounds the daily ones; the SAR up/down lines partition the SAR and their flags mark where each begins. With filling on the same holds wherever nothing had to be filled.",
     ["inputs", "configurations"],
     "All histories and settings, filling off and (on bars that needed no filling) on, all listed relations at all bars, computed from independently constructed objects.",
     "Tests compare single lines with stored numbers; no test relates two lines, so one line can drift from its sibling (for instance after only one of two copies of a formula is edited).",
     ["ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py"],
     [("shared intermediate series", "_run methods and accessor methods deriving further lines")],
     ["accessor results of one or several indicators on the same data"])

prop("C18", "Any history length is handled and the result is row-aligned",
     "Every line of every indicator and the bulk feature builder accept every clean history with at least one bar and every window of at least 1 - also when the history is shorter than the windows - without raising. "
     "The result is always a float column of exactly the input's length carrying the line's documented name (the sole exception in length is volume-price trend when asked to drop missing rows); bars that cannot be computed are marked as not available (or, with filling on, filled) rather than making the call fail.",
     ["inputs", "configurations"],
     "All history lengths >= 1 relative to all window settings; all lines; fillna on/off.",
     "Every test sample is longer than its window, by choice of sample.",
     ["ta/trend.py", "ta/volatility.py", "ta/momentum.py", "ta/volume.py", "ta/others.py", "ta/wrapper.py"],
     [("array allocations and seeds relative to the window", "ADXIndicator, AverageTrueRange, NegativeVolumeIndexIndicator, PSARIndicator"), ("rolling minimum periods", "all _run methods")],
     ["return value or exception of constructors and accessors"])

prop("C19", "Windowed indicators forget: only the look-back matters",
     "A line defined over a finite look-back (SMA, WMA, Bollinger, Keltner original, Donchian, Ichimoku, stochastic, Williams %R, ultimate and awesome oscillator, ROC, CCI, DPO, KST, Aroon, Vortex, CMF, MFI, VWAP, averaged ease of movement, ulcer index - whose drawdowns are from peaks of their own window, so it looks back twice the window - and daily returns) has, once that look-back is full, the same value whatever preceded the look-back: dropping or altering older bars changes nothing beyond rounding. "
     "Running totals (accumulation/distribution, on-balance volume, volume-price trend) computed on a suffix differ from those of the whole history only by one constant, and the negative volume index and cumulative growth only by one constant factor.",
     ["histories", "inputs", "configurations"],
     "All histories, all ways to alter or drop bars older than the look-back, all settings.",
     "Tests evaluate one history from its beginning; dependence on older data can only be seen by comparing different pasts.",
     ["ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/others.py"],
     [("rolling windows and shifts of bounded size", "_run methods"), ("cumulative sums/products", "ta/volume.py, ta/others.py")],
     ["results on a history, on its suffix, and on the same suffix with another past"])

prop("C20", "Bulk feature builder leaves the caller's data intact",
     "Adding features never changes the values, types, order or labels of the rows and columns already in the frame (extra non-price columns included), returns the same rows, and appends the new columns after the existing ones, each name carrying the requested prefix. "
     "The all-in-one call equals the family calls made one after another, several calls with different prefixes do not influence each other, and repeating a call changes nothing.",
     ["histories", "inputs", "configurations"],
     "All frames (any extra columns, any column naming, any row labels), all sequences of family calls, prefixes and modes.",
     "No runnable test touches the builder; the absent-data tests would only count columns.",
     ["ta/wrapper.py"],
     [("column assignment into the passed frame", "ta/wrapper.py: add_*_ta, add_all_ta_features")],
     ["frame before/after each call of a sequence"])

prop("C21", "Up and down are treated alike",
     "Reflecting a history (every price p replaced by K - p, highs and lows exchanged) mirrors the symmetric lines: RSI (once any move was seen), the stochastic with its signal and STC become 100 minus themselves, Williams %R becomes -100 minus itself, stochastic RSI 1 minus itself, TSI, awesome oscillator, MACD, DPO, CCI, Aroon and Vortex difference, accumulation/distribution, CMF, force index and ease of movement change sign; SMA, EMA, WMA, KAMA, VWAP and the Ichimoku lines reflect to K minus themselves. "
     "Aroon up/down, +DI/-DI and +VI/-VI exchange roles while ADX, ATR and the mass index are unchanged; each channel's lower and upper band, percentage and break-out flags exchange.",
     ["inputs", "configurations"],
     "All histories whose reflection stays positive; all windows; filling off.",
     "No test evaluates two related inputs; an asymmetric slip (one of two mirrored branches) passes on any sample that does not exercise that branch at its tail.",
     ["ta/momentum.py", "ta/trend.py", "ta/volatility.py"],
     [("mirrored branches for up and down moves", "RSIIndicator, ADXIndicator, AroonIndicator, VortexIndicator, channel bands")],
     ["results on a history and on its reflection"])

prop("C22", "Results belong to the caller",
     "Every series an accessor or function returns, and every frame the bulk builder returns, is the caller's own: overwriting its values, filling it in place or rescaling it never changes the caller's input series, any other result handed out before, or what the same or another object reports afterwards.",
     ["histories", "inputs", "configurations"],
     "All sequences of constructing, asking, in-place editing of results and asking again, over all indicators, functions and the bulk builder.",
     "Tests only read results; shared storage shows only when a result is edited and something else is looked at afterwards.",
     ["ta/utils.py", "ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/others.py"],
     [("hand-over of the internal series", "ta/utils.py: IndicatorMixin._check_fillna and the accessor methods")],
     ["accessor results before and after the caller edits earlier results; the input series"],
     [("internal line series", "computed once in _run and served by the accessors", "attributes of every indicator object")])

prop("C23", "Concurrent use gives the same results",
     "Computing indicators (objects, functions, bulk builder on separate frames) from several threads at the same time, on shared or separate input series and with equal or different parameters, gives exactly the results each computation gives alone, and leaves the shared inputs unchanged.",
     ["schedules", "inputs", "configurations"],
     "All interleavings of constructor and accessor calls of two or more threads.",
     "Tests are single-threaded; state shared between calls (class-level buffers, caches, global switches) only goes wrong under particular schedules.",
     ["ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/others.py", "ta/utils.py", "ta/wrapper.py"],
     [("all state lives in the indicator object", "__init__ and _run of every class; ta/utils.py helpers")],
     ["results per thread compared with sequential results"])

prop("C24", "Storage, names and number types make no difference",
     "How the input is stored or passed does not matter: read-only buffers, columns of a two-dimensional frame, strided, reversed or sliced series, any series names (none, equal, numbers, tuples), NumPy integers of any width pandas accepts, floats and booleans instead of Python ones as parameters, and pandas' copy-on-write mode all give the same lines with the same names as the plain call.",
     ["inputs", "configurations"],
     "All histories x memory layouts x series names x parameter scalar types x copy-on-write on/off, for every indicator, function and the bulk builder.",
     "Tests load one frame with one layout, fixed column names and Python ints.",
     ["ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/others.py", "ta/utils.py", "ta/wrapper.py"],
     [("construction of intermediate series, arrays and frames", "_run methods; ta/utils.py: _true_range, _get_min_max")],
     ["results of both calls"])

prop("C25", "Missing bars cost only their own look-back",
     "Bars whose prices and volume are all missing may precede a history (as when one indicator is applied to another's line) or lie inside it. Missing rows in front change nothing: on the remaining rows every line that is not anchored to the very first row (all but KAMA, ADX with its DIs, SAR, ATR with the ATR-based Keltner channel, and cumulative return) has the same value as without them, and the rows in front are reported as missing (flags and the NVI start value excepted). "
     "With filling off, a missing bar inside leaves a windowed line unchanged at every bar whose look-back does not contain it, and is never silently averaged over: where the look-back contains it the line is missing (ROC, KST, flags, ulcer index, MFI and displaced lines excepted). RSI and stochastic RSI keep their values behind missing leading rows, though they may report them some bars sooner.",
     ["histories", "inputs", "configurations"],
     "All histories, all numbers of missing rows in front, all places of missing rows inside, all settings.",
     "Tests use complete data; whether a missing row is contained or contaminates a line (or is skipped silently) depends on where it lies relative to every window.",
     ["ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/others.py", "ta/utils.py"],
     [("minimum periods of rolling and exponential windows", "_run methods; ta/utils.py: _sma, _ema, _get_min_max, _true_range")],
     ["results on a history and on the same with missing rows in front or inside"])

prop("C26", "Indicators can be copied and pickled",
     "A shallow or deep copy of an indicator object, and one restored from a pickle, is an equivalent indicator whether it was taken before or after lines were asked: each of its lines, and each line of the original, equals that of a fresh object, and a deep copy or restored object no longer depends on the caller's series.",
     ["histories", "inputs", "configurations"],
     "All indicators, settings, row labels, orders of asking, copying and restoring, pickle protocols.",
     "No test copies an object; state kept outside the object or not carried along only shows when a copy is used next to its original.",
     ["ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/others.py", "ta/utils.py"],
     [("all state lives in plain attributes", "__init__ and _run of every class")],
     ["accessor results of copies and of fresh objects"],
     [("indicator attributes", "input series, parameters and internal lines", "instance attributes set in __init__ and _run")])

prop("C27", "Parameters act as named, and different routes to one quantity agree",
     "On every history: channel widths are proportional to deviation count or multiplier, CCI inversely to its constant; only the ratio of the ultimate oscillator's weights matters and its window/weight pairs are interchangeable; swapping the fast and slow window of MACD or awesome oscillator changes the sign, equal windows give a zero line; a Donchian offset or Ichimoku displacement is a plain shift; signal, smoothing and ATR windows have no influence on lines defined without them, and smoothing over one bar changes nothing; averages over one bar are the price itself and averages of sums are sums of averages. "
     "The same quantity reached differently agrees: stochastic, Williams %R and Ichimoku through the Donchian channel; stochastic RSI, STC, TSI, TRIX, mass index and KST by feeding one indicator's line to another; PVO as the PPO of the volume; VWAP with equal volumes as an SMA; ROC over one bar as daily return; KAMA with equal speeds as a plain recursive average; one-bar ADX, Vortex, MFI, RSI and CMF through true range, direction of the move and accumulation/distribution; NVI and on-balance volume step by step.",
     ["inputs", "configurations"],
     "All histories and pairs of settings.",
     "Each test fixes one setting per indicator; a parameter wired to the wrong place, hard-coded or ignored, agrees with it at that setting.",
     ["ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/others.py"],
     [("use of each parameter", "_run methods"), ("shared building blocks", "ta/utils.py: _sma, _ema, _get_min_max, _true_range")],
     ["lines of two settings or two indicators on the same history"])

prop("C28", "Every process computes the same, and is left as it was found",
     "An indicator line, a function or a bulk frame (values, labels, names, order of the columns) depends only on the data and the arguments: not on the hash seed, optimisation flags, time zone, locale, clock, random seeds, library options or import order of the process, nor on what that process computed before. "
     "Importing the library or computing with it leaves the state of the process alone: numeric error handling, options, warning filters, random number generators, environment, working directory and standard output.",
     ["configurations", "histories", "inputs"],
     "All clean histories and jobs, in processes with different settings and pasts.",
     "The tests run in one process with one set of settings and never look at anything but the result.",
     ["ta/__init__.py", "ta/wrapper.py", "ta/utils.py", "ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/others.py"],
     [("computation from arguments only", "every _run and accessor method"), ("column assignments in a fixed order", "ta/wrapper.py")],
     ["results across processes", "state of the process before and after a call"])

prop("C29", "An interrupted or failed computation leaves nothing behind",
     "When a computation is cut off at any point by an exception (keyboard interrupt, out of memory) or fails because of an invalid argument, the caller's series, the price columns of the caller's frame and all results handed out earlier are unchanged, and the settings of the process are what they were before. "
     "Whatever is asked afterwards - the same object again, a new object, the same bulk frame - equals the answer of a process in which nothing was cut off.",
     ["crash_points", "histories", "inputs"],
     "All sequences of computations and all points at which one of them may be cut off.",
     "No test interrupts a computation or continues after a failed one.",
     ["ta/wrapper.py", "ta/utils.py", "ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/others.py"],
     [("no temporary changes to inputs, no shared state", "every _run and accessor method"), ("column assignments to the caller's frame", "ta/wrapper.py")],
     ["inputs, earlier results and later answers around a cut"])

prop("C30", "Only price differences count for difference-based lines",
     "Adding the same constant to every price of a history (as between a contract and its spread; prices may become zero or negative) leaves unchanged, at every bar, the lines built on price differences: RSI, stochastic RSI, TSI, ultimate oscillator, stochastic with signal, Williams %R, awesome oscillator, Aroon, MACD with signal and histogram, mass index, DPO, CCI, ADX with +DI/-DI, Vortex, STC, ATR, SAR flags, every channel's percentage and break-out flags, accumulation/distribution, OBV, CMF, force index and ease of movement. "
     "It moves by exactly that constant the price-level lines: KAMA, EMA, SMA, WMA, Ichimoku lines, SAR values, all channel bands and VWAP. No line treats a price of zero, or a price below zero, as missing or special.",
     ["inputs", "configurations"],
     "All histories x all constants added, all windows, filling off and on (cells holding a filled value excepted).",
     "No test evaluates two related inputs, and every sample price lies far from zero; thresholds, zero tests and sign tricks pass.",
     ["ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py"],
     [("differences and ranges of prices", "RSIIndicator, ADXIndicator, AverageTrueRange, StochasticOscillator ..."),
      ("channel positions relative to the bands", "BollingerBands, KeltnerChannel, DonchianChannel"), ("flags", "PSARIndicator")],
     ["results on a history and on the moved one"])

prop("C31", "A higher last close is never answered in the wrong direction",
     "When only the last bar's close is higher (within the bar's range where the line uses highs and lows), the last reading of no bullish line is lower: RSI, TSI, ultimate oscillator, stochastic and stochastic RSI with their signals, Williams %R, ROC, KST, TRIX, CCI, SMA, EMA, WMA, MACD lines (fast window shorter than slow; reversed windows reverse it), the percentage in a Bollinger, Keltner or Donchian channel and the upper break-out flags, the Bollinger and Keltner middle, accumulation/distribution, OBV, CMF, force index, volume-price trend, NVI, VWAP and the returns. "
     "The last reading of DPO, the ulcer index and the lower break-out flags is not higher. This holds for every history, window and size of the rise, filling on or off.",
     ["inputs", "configurations"],
     "All histories, all sizes of the rise from a rounding step to a multiple of the price, all windows.",
     "No test changes a single bar and compares; a wrong branch on equal, zero or extreme closes gives plausible values on fixed samples.",
     ["ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/others.py"],
     [("branches on the direction of the close", "RSIIndicator, OnBalanceVolumeIndicator, NegativeVolumeIndexIndicator, flags of the channels"),
      ("weights of the last bar", "averages, MACD, KST, TRIX")],
     ["last reading before and after the last close is raised"])

prop("C32", "A bar that reached further is answered in the right direction",
     "When only the last bar's high is higher, the last reading of ATR, the mass index, the Ichimoku lines, CCI, Aroon up and the Aroon difference, VWAP, the upper Keltner and upper and middle Donchian bands, the channel widths and the SAR turned-up flag is not lower (nor the awesome oscillator's, fast window shorter than slow); that of the stochastic with its signal, Williams %R, the ultimate oscillator, -DI, -VI, accumulation/distribution, CMF, the Donchian percentage and the Keltner break-out flags is not higher; Aroon down and the lower Donchian band stay. "
     "A lower last low does the mirrored thing: ATR, mass index, widths, Aroon down, stochastic, Williams %R, ultimate oscillator, accumulation/distribution and CMF not lower; +DI, +VI, Ichimoku, CCI, VWAP, lower and middle bands not higher; Aroon up and the upper Donchian band stay. This holds for every history, window and size, filling on or off.",
     ["inputs", "configurations"],
     "All histories, all higher highs and lower lows of the last bar (ties with earlier extremes included), all windows.",
     "No test changes a single high or low and compares; a wrong branch on gaps, ties or inside bars gives plausible values on fixed samples.",
     ["ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py"],
     [("true range and extremes over the window", "IndicatorMixin._true_range, rolling max/min of StochasticOscillator, DonchianChannel, IchimokuIndicator"),
      ("directional movement", "ADXIndicator, VortexIndicator, AroonIndicator, PSARIndicator")],
     ["last reading before and after the last high or low is moved"])

prop("C33", "More volume weighs its own bar more",
     "When only the last bar's volume is larger, the last reading of OBV, volume-price trend and the force index moves (if at all) in the direction of the last price change, the money flow index in the direction of the typical price, accumulation/distribution in the direction of the close's place in the bar's range; CMF moves towards that place's multiplier and VWAP towards the bar's typical price; ease of movement (raw and averaged) moves against the sign of the mid-point's move; NVI never moves in the direction of the price change. "
     "A bar without the respective move leaves its line where it is. This holds for every history, window and volume, filling on or off.",
     ["inputs", "configurations"],
     "All histories, all larger last volumes (from zero, across the previous volume), all windows.",
     "No test changes a single volume and compares; caps, thresholds and wrong signs on rare bars give plausible totals.",
     ["ta/volume.py"],
     [("signed volume", "OnBalanceVolumeIndicator, VolumePriceTrendIndicator, ForceIndexIndicator, MFIIndicator"),
      ("volume-weighted averages", "VolumeWeightedAveragePrice, ChaikinMoneyFlowIndicator, AccDistIndexIndicator"),
      ("volume comparisons", "NegativeVolumeIndexIndicator")],
     ["last reading before and after the last volume is raised"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
