"""The property list (source of properties.jsonl)."""
U = "finmlkit/"
NA = {}
TEXT = []


def P(id, title, statement, q, tests, anchors, over=("inputs",)):
    TEXT.append(dict(id=id, title=title, statement=statement, q=q, tests=tests, anchors=[(a, U + b) for a, b in anchors], over=list(over)))


T = "Unit tests compare a handful of hand-made arrays; the claim is over every input of every length, including empty bars, NaNs, boundaries and equal values."

P("C01", "Time bars tile the trade stream on an exact fixed grid",
  "For time-ordered trades and a positive interval, the bar boundaries are the consecutive multiples of the interval (exact integer nanoseconds) that cover the trades, and each bar's closing trade is the last trade at or before its boundary. "
  "Every trade therefore falls in exactly one bar, empty intervals yield empty bars, and bar timestamps never drift from the grid.",
  "every non-empty sorted int64 timestamp array and every positive interval", T,
  [("time bar boundaries", "bar/logic.py:_time_bar_indexer"), ("time bar builder", "bar/kit.py:TimeBarKit")])
P("C02", "Tick, volume and dollar bars close exactly at the first threshold crossing",
  "A tick bar closes at every N-th trade; a volume (dollar) bar closes at the first trade after the opening one at which the accumulated volume (price times volume) reaches the threshold. "
  "After a close the volume accumulator restarts from zero and the dollar accumulator keeps only the excess over the threshold. "
  "No crossing is skipped, no bar closes early, and the reported close timestamps are those of the closing trades.",
  "every trade array, every threshold", T,
  [("tick bars", "bar/logic.py:_tick_bar_indexer"), ("volume bars", "bar/logic.py:_volume_bar_indexer"), ("dollar bars", "bar/logic.py:_dollar_bar_indexer"), ("builders", "bar/kit.py:TickBarKit")])
P("C03", "CUSUM bars close exactly when the volatility-scaled cumulative sum crosses",
  "Positive and negative cumulative sums of log returns start at zero and are clipped at zero; at the last trade of each timestamp a bar closes if either reaches the larger of the multiplier times the current (forward-filled) volatility and the floor, and the sum that fired resets. "
  "Counting starts at the first trade with a defined volatility, trades sharing one timestamp are never split over two bars, and inputs of different lengths are rejected.",
  "every sorted trade array, volatility series, floor and multiplier", T,
  [("cusum bars", "bar/logic.py:_cusum_bar_indexer"), ("builder", "bar/kit.py:CUSUMBarKit")])
P("C04", "OHLCV, VWAP and counts of a bar summarise exactly its trades",
  "For every bar, open, high, low and close are the first, largest, smallest and last price of exactly the trades after the previous closing trade up to and including its own; volume and trade count are their total and number, VWAP is their volume-weighted mean price and the median trade size their median. "
  "A bar without trades repeats the previous close price with zero volume; low <= open, close <= high always holds, and VWAP lies between low and high when there is volume.",
  "every trade array and every non-decreasing array of close indices", T,
  [("ohlcv kernel", "bar/base.py:comp_bar_ohlcv"), ("builder", "bar/base.py:BarBuilderBase.build_ohlcv")])
P("C05", "Directional features split each bar's flow exactly by aggressor side",
  "Buy and sell ticks, volumes and dollars of a bar are the counts and totals of its buy and sell trades, spreads are the size-weighted price changes at side switches, and the cumulative minima and maxima are the extremes of the running signed sums over that bar alone. "
  "Nothing leaks between bars, and bars without signed trades report zeros.",
  "every trade array with sides in {-1, 0, 1} and every non-decreasing array of close indices", T,
  [("kernel", "bar/base.py:comp_bar_directional_features"), ("builder", "bar/base.py:BarBuilderBase.build_directional_features")])
P("C06", "Trade-size features describe the size distribution of exactly one bar",
  "For every bar, the relative mean and 95th-percentile sizes are log(1 + x / t) of the bar's own trade sizes, t being the bar's reference size times the multiplier; the block share is the share of its volume in trades larger than t, and the concentration is one minus the sum of squared volume shares. "
  "Bars without trades or with a zero reference size report NaN; shares lie in [0, 1].",
  "every trade array and close index array", T,
  [("kernel", "bar/base.py:comp_bar_trade_size_features"), ("builder", "bar/base.py:BarBuilderBase.build_trade_size_features")])
P("C07", "Footprints conserve volume per price level, side and bar",
  "For every bar, the footprint lists each price level between the bar's low and high once, in order, and buy and sell volumes and tick counts at a level are the totals of that bar's trades of that side at that level; their sum over levels equals the bar's signed-side totals. "
  "Imbalance flags are set exactly where the diagonal ratio test holds. Slicing, converting or tabulating footprint data keeps every bar's levels and totals.",
  "every trade array, tick size, bar indices and imbalance factor", T,
  [("kernel", "bar/base.py:comp_bar_footprints"), ("container", "bar/data_model.py:FootprintData")])
P("C08", "Footprint-derived imbalance and concentration features match their definitions",
  "The point of control of a bar is its level with the largest total volume, imbalance run lengths, signed imbalance counts and volume concentration figures are those of that bar's footprint alone. "
  "Levels without volume never produce undefined numbers.",
  "every footprint", T, [("kernel", "bar/base.py:comp_footprint_features")])
P("C09", "Merging split trades conserves volume, price, order and side",
  "Merging joins exactly the maximal runs of consecutive trades that share the timestamp, the price of the run's first trade (to within 1e-8) and, if given, the side; every other trade stays separate. "
  "The merged trade carries the run's timestamp, first price and side and the sum of its amounts, so total volume is unchanged and the order of runs is kept.",
  "every time-ordered trade array with or without sides", T, [("merge", "bar/utils.py:merge_split_trades"), ("preprocessing", "bar/data_model.py:TradesData")])
P("C10", "Tick-rule trade sides follow the last price change",
  "The inferred side of a trade is the sign of its price change from the previous trade, and carries over the previous side while the price is unchanged. "
  "The first trade has side zero until a change has been seen, and the result never contains any value but -1, 0 and 1.",
  "every price series", T, [("scalar rule", "bar/utils.py:comp_trade_side"), ("vector rule", "bar/utils.py:comp_trade_side_vector")])
P("C11", "Trade preprocessing keeps every trade with its own attributes",
  "After loading and preprocessing, trades are in time order, timestamps are in nanoseconds of the right epoch unit, duplicates by id occur once, and each trade's price, amount and side are the ones it came with. "
  "Invalid inputs (wrong lengths, unknown units) are rejected, and missing id ranges are reported as gaps.",
  "every trade table, order, unit and option", T, [("container", "bar/data_model.py:TradesData")], ("inputs", "configurations"))
P("C12", "Triple-barrier labels report the first barrier touched",
  "For each event the reported touch is the first trade, no earlier than the minimum close time and no later than the vertical barrier, whose side-adjusted log return reaches a horizontal barrier, or else the last trade inside the vertical barrier. "
  "The return is the one at that trade, the label is its sign (or, with sides given, whether it reaches the minimum return), the ratio is 1 at a horizontal touch and otherwise in [0, 1] or undefined when the barrier is disabled. "
  "Each event's result depends only on prices up to its vertical barrier.",
  "every price path, event set, barrier configuration and side array", T, [("kernel", "label/tbm.py:triple_barrier"), ("label builder", "label/kit.py:TBMLabel")], ("inputs", "configurations"))
P("C13", "Label concurrency and average uniqueness are exact",
  "Concurrency at a time is the number of labels whose span (event to touch, inclusive) contains it, and the uniqueness of a label is the mean of the reciprocal concurrency over its span. "
  "Uniqueness lies in (0, 1] and equals 1 exactly for labels that overlap no other.",
  "every event set with touch indices", T, [("kernel", "label/weights.py:average_uniqueness"), ("weights", "label/kit.py:SampleWeights")])
P("C14", "Return attribution shares each log return among concurrent labels",
  "A label's weight is the absolute sum over its span of each log return divided by the concurrency at that time, undefined returns left out. "
  "Normalised weights sum to the number of events, and a zero total is rejected rather than divided by.",
  "every price path, event set and concurrency array", T, [("kernel", "label/weights.py:return_attribution")])
P("C15", "Time decay, class balance and final sample weights follow their definitions",
  "Time-decay weights are linear in cumulated uniqueness, never negative, 1 for the newest event and the requested weight at the oldest end; class-balance weights give every class with positive weight the same total. "
  "Final weights are the product of the enabled components scaled to mean one before class balancing, and never negative.",
  "every weight vector, label vector and decay parameter", T, [("decay", "label/weights.py:time_decay"), ("balance", "label/weights.py:class_balance_weights"), ("final weights", "label/kit.py:SampleWeights.compute_final_weights")], ("inputs", "configurations"))
P("C16", "The CUSUM event filter fires exactly at threshold crossings",
  "The filter keeps two clipped cumulative sums of log returns, reports an index exactly when one of them exceeds the threshold in force at that index, and resets the sum that fired. "
  "Reported events are strictly increasing, and an event depends only on prices up to it.",
  "every price series and scalar or per-sample threshold", T, [("filter", "sampling/filters.py:cusum_filter")])
P("C17", "Lagged returns, z-scores, percentage changes and burst ratios are exact",
  "A lagged return at an index compares its price with the last price at least the lag earlier in time and is undefined when there is none; rolling z-scores and burst ratios use exactly the stated window of past values. "
  "Undefined positions are NaN, never zero or stale numbers.",
  "every series, window and lag", T, [("lagged returns", "feature/core/utils.py:comp_lagged_returns"), ("z-score", "feature/core/utils.py:comp_zscore"), ("burst", "feature/core/utils.py:comp_burst_ratio"), ("pct change", "feature/core/utils.py:pct_change")])
P("C18", "Moving averages and momentum oscillators match their recurrences",
  "Simple and exponential moving averages, rate of change, Wilder RSI and stochastic %K at an index equal their defining window or recurrence over the values up to that index. "
  "RSI and %K stay within [0, 100], and warm-up positions are NaN.",
  "every series and window", T, [("sma/ewma", "feature/core/ma.py:sma"), ("momentum", "feature/core/momentum.py:rsi_wilder")])
P("C19", "Volatility estimators match their definitions and are never negative",
  "Exponentially weighted (index- and time-based) deviations, realized volatility, true range, ATR, Bollinger %B, Parkinson range and variance ratios equal their defining formula over the stated window of past data. "
  "Deviations and ranges are never negative, and warm-up positions are NaN.",
  "every series and window", T, [("estimators", "feature/core/volatility.py:ewms")])
P("C20", "ADX follows Wilder's recurrences within [0, 100]",
  "The ADX is Wilder's smoothed average of the directional index, itself the normalised gap between the plus and minus directional indicators obtained from smoothed directional moves and true ranges, each seeded over its first window. "
  "Every value lies in [0, 100] and depends only on bars up to its own; positions before twice the window are zero, and an index without range or movement counts as zero.",
  "every OHLC series and window", T, [("adx", "feature/core/trend.py:adx_core")])
P("C21", "Volume profiles conserve volume and bracket the point of control",
  "Aggregating footprints and bucketing prices preserves total volume, the point of control is the bucket with the largest volume, and the value area is a contiguous bucket range around it holding at least the requested share of volume. "
  "The value area grows two levels at a time from the point of control towards the side holding more volume; buckets have equal odd width; rolling profiles use exactly the bars of their window.",
  "every footprint sequence, bucket count and window", T, [("profile", "feature/core/volume.py:VolumePro"), ("poc", "feature/core/volume.py:comp_poc_hva_lva")])
P("C22", "VPIN, flow acceleration, VWAP distance and correlation match their windows",
  "VPIN is the total absolute order imbalance of its window over the window's total volume, flow acceleration the log ratio of recent to preceding flow, VWAP distance the relative (or log) gap between price and the volume-weighted mean of its window, and rolling correlation the Pearson correlation of returns and volumes over its window. "
  "VPIN lies in [0, 1]; windows are trailing and of exactly the stated length.",
  "every series and window", T, [("vpin", "feature/core/volume.py:vpin"), ("acceleration", "feature/core/volume.py:comp_flow_acceleration"), ("vwap distance", "feature/core/reversion.py:vwap_distance"), ("correlation", "feature/core/correlation.py:rolling_price_volume_correlation")])
P("C23", "CUSUM structural-break statistics match their definition",
  "The one-sided CUSUM statistics at a bar are the largest upward and downward departures of its log price from any earlier admissible reference bar of the sample, each divided by the deviation of the sample's log returns and the square root of the distance, together with the critical value of the reference that attains them. "
  "Samples are the expanding or rolling window ending at the bar, so later data never matters; positions before the warm-up are NaN.",
  "every positive price series, warm-up and window", T, [("tests", "feature/core/structural_break/cusum.py:cusum_test_developing"), ("rolling", "feature/core/structural_break/cusum.py:cusum_test_rolling")])
P("C24", "Time cues encode the correct calendar moment",
  "Hour, day and session encodings of a timestamp are those of its UTC calendar time, cyclic encodings lie on the unit circle, and equal moments give equal cues; moments before 1970 count the same way.",
  "every int64 timestamp", T, [("cues", "feature/core/time.py:time_cues")])
P("C25", "Feature values never depend on later data",
  "The value of a feature or event filter at an index is unchanged when any later input value is changed or later data is appended: computing on a prefix gives the prefix of the result. "
  "Series hold at least the minimum the feature demands before it yields any value (variance ratio: window + 4, rolling CUSUM: warm-up + 2).",
  "every pair of series with a common prefix", T, [("kernels", "feature/core/volatility.py:ewms"), ("filter", "sampling/filters.py:cusum_filter")])
P("C26", "Feature graphs compute each node once and independently of order",
  "Building a feature set of transforms with distinct output names yields the same columns and values whatever the order of features, cache use or execution backend, and composed features equal their parts applied in sequence. "
  "Feature building never modifies the input data.",
  "every feature set, order and cache state", T, [("kit", "feature/kit.py:FeatureKit"), ("graph", "feature/utils.py:ComputationGraph")], ("inputs", "configurations", "histories"))
P("C27", "Saved feature configurations rebuild the same features",
  "A feature set written to a configuration and read back has the same features with the same parameters and names, and computes the same values.",
  "every feature set", T, [("serialisation", "feature/utils.py:build_feature_from_config")], ("inputs", "configurations"))
P("C28", "Trades and bars stored in HDF5 are read back unchanged",
  "Trades written to a store are returned by any range query exactly once and unchanged, append and overwrite modes keep the months they should, and stored 1-second bars equal bars built from the month's trades. "
  "Bars read at a longer timeframe aggregate exactly the stored bars of each interval in the requested range, an end given as midnight including that whole day.",
  "every trade table, month span and write history", T, [("writer", "bar/data_model.py:TradesData.save_h5"), ("reader", "bar/io.py:TimeBarReader")], ("inputs", "histories"))
P("C29", "Lag, gap, opening-range, bar-rate, candle and run-length features match their definitions",
  "Lags and returns compare a bar with the one exactly the stated number of bars earlier, candle ratios are those of the bar's own open, high, low and close, the daily gap at midnight compares with the last close before it, and the opening-range break uses only the day's first four bars. "
  "Bar rates and durations count exactly the bars of the trailing window, and run lengths count the consecutive same-direction returns ending at the bar, however long.",
  "every bar frame and parameter", T, [("transforms", "feature/transforms.py:DailyGap"), ("run length", "feature/transforms.py:DirRunLen")], ("inputs", "configurations"))
