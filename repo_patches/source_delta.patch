From d47b342e6ca9aa7c07906247509af6546822fe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 01/31] fix: compute the time-bar grid in integer nanoseconds

Epoch nanoseconds exceed float64's 53-bit integers: sub-second bars were irregular and a first trade
within the rounding error of a boundary fell outside every bar.
---
 finmlkit/bar/logic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/logic.py b/finmlkit/bar/logic.py
index d95da3b..c0d07dd 100644
--- a/finmlkit/bar/logic.py
+++ b/finmlkit/bar/logic.py
@@ -27,13 +27,14 @@ def _time_bar_indexer(
         The first bar is aligned to the ceiling of the first timestamp, ensuring consistent bar boundaries.
         Duplicate indices may occur if a bar interval contains no trades (empty bars).
     """
-    bar_interval_ns = interval_seconds * 1e9
+    # integer nanoseconds: epoch timestamps exceed the 53-bit integer range of float64
+    bar_interval_ns = int(round(interval_seconds * 1e9))
 
     # determine the first bar start time (closest integer multiple of bar_interval_ns)
     bar_start_ts = timestamps[0] // bar_interval_ns * bar_interval_ns
 
     # last tick timestamp
-    last_ts = np.ceil(timestamps[-1] / bar_interval_ns) * bar_interval_ns
+    last_ts = -(-timestamps[-1] // bar_interval_ns) * bar_interval_ns
 
     # create the array of bar close timestamps
     bar_clock = np.arange(bar_start_ts, last_ts + bar_interval_ns + 1, bar_interval_ns, dtype=np.int64)
-- 
2.43.0


From 903c65315c3895d288f9945ee2afe75b1ceb1090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 02/31] fix: reject every length mismatch in the CUSUM bar
 indexer

The chained comparison accepted arrays whenever one adjacent pair matched, and the loop then read
past the end of the shorter array.
---
 finmlkit/bar/logic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/logic.py b/finmlkit/bar/logic.py
index c0d07dd..81d67c0 100644
--- a/finmlkit/bar/logic.py
+++ b/finmlkit/bar/logic.py
@@ -172,7 +172,7 @@ def _cusum_bar_indexer(
     :param sigma_mult: sigma multiplier for the CUSUM filter (threshold will be lambda_mult*sigma).
     :returns: close_indices
     """
-    if len(prices) != len(sigma) != len(timestamps):
+    if len(prices) != len(sigma) or len(prices) != len(timestamps):
         raise ValueError("Prices, timestamps, and sigma arrays must have the same length.")
 
     n = len(prices)
-- 
2.43.0


From 155406894ca7825a036ce91d894505e0855fa964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 03/31] fix: directional features of empty, single-trade and
 first bars

---
 finmlkit/bar/base.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index fc486e5..f830200 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -455,13 +455,13 @@ def comp_bar_directional_features(
     max_spread = np.zeros(n_bars, dtype=np.float32)
     mean_spread = np.zeros(n_bars, dtype=np.float32)
 
-    # Initialize cumulative min and max arrays with appropriate values
-    cum_ticks_min = np.full(n_bars, 1e9, dtype=np.int64)            # inf (large value)
-    cum_ticks_max = np.full(n_bars, -1e9, dtype=np.int64)                   # -inf (small value)
-    cum_volumes_min = np.full(n_bars, 1e9, dtype=np.float32)
-    cum_volumes_max = np.full(n_bars, -1e9, dtype=np.float32)
-    cum_dollars_min = np.full(n_bars, 1e9, dtype=np.float32)
-    cum_dollars_max = np.full(n_bars, -1e9, dtype=np.float32)
+    # Cumulative min and max start from the first signed trade of the bar (zero if the bar has none)
+    cum_ticks_min = np.zeros(n_bars, dtype=np.int64)
+    cum_ticks_max = np.zeros(n_bars, dtype=np.int64)
+    cum_volumes_min = np.zeros(n_bars, dtype=np.float32)
+    cum_volumes_max = np.zeros(n_bars, dtype=np.float32)
+    cum_dollars_min = np.zeros(n_bars, dtype=np.float32)
+    cum_dollars_max = np.zeros(n_bars, dtype=np.float32)
 
     # Compute the bar directional features
     for i in prange(n_bars):
@@ -482,10 +482,12 @@ def comp_bar_directional_features(
         current_cum_spread = 0.0
 
         # Initialize previous tick sign for spread calculation
-        if end > start:
+        if start > end:
+            continue  # No trades in the bar
+        if start > 0:
             prev_tick_sign = trade_sides[start - 1]  # Previous trade side at the start of the bar
         else:
-            prev_tick_sign = 0  # Default value if no trades in bar
+            prev_tick_sign = trade_sides[start]  # No trade before the first one
 
         # Iterate over trades in the current bar (start exclusive, end inclusive)
         for j in range(start, end + 1):
@@ -519,6 +521,14 @@ def comp_bar_directional_features(
                 continue
 
             # Update the cumulative min and max values
+            if current_tics_buy + current_tics_sell == 1:
+                cum_ticks_max[i] = current_cum_ticks
+                cum_ticks_min[i] = current_cum_ticks
+                cum_volumes_max[i] = current_cum_volumes
+                cum_volumes_min[i] = current_cum_volumes
+                cum_dollars_max[i] = current_cum_dollars
+                cum_dollars_min[i] = current_cum_dollars
+                continue
             cum_ticks_max[i] = max(cum_ticks_max[i], current_cum_ticks)
             cum_ticks_min[i] = min(cum_ticks_min[i], current_cum_ticks)
             cum_volumes_max[i] = max(cum_volumes_max[i], current_cum_volumes)
@@ -533,7 +543,8 @@ def comp_bar_directional_features(
         dollars_buy[i] = current_dollars_buy
         dollars_sell[i] = current_dollars_sell
         max_spread[i] = current_max_spread
-        mean_spread[i] = current_cum_spread / (current_tics_buy + current_tics_sell)
+        if current_tics_buy + current_tics_sell > 0:
+            mean_spread[i] = current_cum_spread / (current_tics_buy + current_tics_sell)
 
     return (
         ticks_buy, ticks_sell,
-- 
2.43.0


From 15f2b2a8e70a8864b3917aa2aeb1a8e6629ad64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 04/31] fix: disable infinite triple-barrier multipliers of
 either sign

---
 finmlkit/label/tbm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 0e749fa..a84e817 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -84,8 +84,9 @@ def triple_barrier(
         # -> This should be done in a preprocessing step before calling this function.
 
         # Upper and lower barriers in log-return space
-        upper_barrier = tgt * top_mult
-        lower_barrier = -tgt * bottom_mult
+        # (an infinite multiplier of either sign disables the barrier)
+        upper_barrier = np.inf if np.isinf(top_mult) else tgt * top_mult
+        lower_barrier = -np.inf if np.isinf(bottom_mult) else -tgt * bottom_mult
         # Pre-compute barrier conditions outside the loop
         upper_valid = np.isfinite(upper_barrier) and upper_barrier != 0.0
         lower_valid = np.isfinite(lower_barrier) and lower_barrier != 0.0
-- 
2.43.0


From b4036bef6e0eaa1269e81dea619bd0fdf7dc1528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 05/31] fix: give skipped triple-barrier events a defined touch
 index

---
 finmlkit/label/tbm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index a84e817..23fa723 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -69,7 +69,7 @@ def triple_barrier(
     log_close = np.log(close)  # Precompute log of close prices for efficiency
 
     labels = np.zeros(n_events, dtype=np.int8)                # The label (-1, 1) or (0, 1)
-    touch_idxs   = np.empty(n_events, dtype=np.int64)               # Index of the first barrier touch
+    touch_idxs   = np.zeros(n_events, dtype=np.int64)               # Index of the first barrier touch
     rets = np.full(n_events, np.nan, dtype=np.float64)             # The return corresponding to the given label
     max_rb_ratios = np.full(n_events, np.nan, dtype=np.float64)    # Maximum return/target ratio during the search
 
@@ -98,6 +98,7 @@ def triple_barrier(
         if t1_idx <= t0_idx:
             print("Warning: Vertical barrier index is less than or equal to event index. Skipping this event.")
             print(t0, t1)
+            touch_idxs[i_event] = t0_idx  # The event closes where it starts
             continue
 
         # ---------- Evaluate the path -----------
-- 
2.43.0


From 2d42f5939299272987a4a920c8d2118cecdfcea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 06/31] fix: ratio is 1 when a horizontal barrier is hit at the
 last trade

---
 finmlkit/label/tbm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 23fa723..5eb3f29 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -107,6 +107,7 @@ def triple_barrier(
         max_urbr = 0.0
         max_lrbr = 0.0
         base_price = log_close[t0_idx]  # Base price for calculating returns
+        barrier_hit = False
         ret = 0.
         for j in range(t0_idx + 1, t1_idx + 1):
 
@@ -128,9 +129,11 @@ def triple_barrier(
             # Check if we touch the barrier
             if ret >= upper_barrier:
                 touch_idx = j
+                barrier_hit = True
                 break
             if ret <= lower_barrier:
                 touch_idx = j
+                barrier_hit = True
                 break
 
         # ---------- Assign the label and other values ------------
@@ -145,7 +148,7 @@ def triple_barrier(
             labels[i_event] = sign if sign != 0 else 1
 
 
-        if touch_idx == t1_idx:
+        if not barrier_hit:
             # Calculate the maximum return-barrier ratio based sample weight
             if ret > 0.:
                 max_rbr = max_urbr / (1 + max_lrbr)
-- 
2.43.0


From 389b3b4b381176d3141d7f5690311a98af19a1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 07/31] fix: return of an event closed by the vertical barrier
 before the minimum close time

---
 finmlkit/label/tbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 5eb3f29..882f9f3 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -108,7 +108,7 @@ def triple_barrier(
         max_lrbr = 0.0
         base_price = log_close[t0_idx]  # Base price for calculating returns
         barrier_hit = False
-        ret = 0.
+        ret = (log_close[t1_idx] - base_price) * side_mult  # Return at the vertical barrier
         for j in range(t0_idx + 1, t1_idx + 1):
 
             dur_ns = timestamps[j] - t0  # Duration in nanoseconds
-- 
2.43.0


From 752c59a9f0ba20ae0b47200e18f974d7f301b9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 08/31] fix: ewmst gave weight to missing observations and
 reported a floor volatility where none is defined

---
 finmlkit/feature/core/volatility.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index b4b16e7..e30e2b7 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -184,16 +184,16 @@ def ewmst(
 
         yi = y[i]
 
-        # update weight sums
-        V  = alpha       + one_minus * V
-        V2 = alpha*alpha + (one_minus*one_minus) * V2
-
-        # update EWMA sums
+        # update weight sums and EWMA sums
         if np.isnan(yi):
-            # decay only
+            # decay only: a missing observation carries no weight
+            V   = one_minus * V
+            V2  = (one_minus*one_minus) * V2
             Sy  = one_minus * Sy
             Syy = one_minus * Syy
         else:
+            V   = alpha             + one_minus * V
+            V2  = alpha*alpha       + (one_minus*one_minus) * V2
             Sy  = alpha * yi        + one_minus * Sy
             Syy = alpha * yi * yi   + one_minus * Syy
 
-- 
2.43.0


From 155c0418e8cd596b6ae05d1ad58ea92183b17238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 09/31] fix: ATR is undefined on every row without prices, not
 only on row 2

---
 finmlkit/feature/core/volatility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index e30e2b7..bed07b7 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -406,8 +406,8 @@ def atr(high: NDArray[np.float64],
     else:
         # SMA-based ATR calculation
         for i in range(window-1, n):
-            # Handle the special case for index 2 (NaN in input)
-            if i == 2 and np.isnan(high[i]) and np.isnan(low[i]) and np.isnan(close[i]):
+            # No ATR where the row itself is missing
+            if np.isnan(high[i]) and np.isnan(low[i]) and np.isnan(close[i]):
                 atr_values[i] = np.nan
                 continue
 
-- 
2.43.0


From 2aae0b9e0134592c297f01a617273c97c2d55926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 10/31] fix: the first VWAP distance ignored is_log

---
 finmlkit/feature/core/reversion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/reversion.py b/finmlkit/feature/core/reversion.py
index afc990a..c6d1c1e 100644
--- a/finmlkit/feature/core/reversion.py
+++ b/finmlkit/feature/core/reversion.py
@@ -37,7 +37,10 @@ def vwap_distance(close: NDArray[np.float64],
         vsum += volume[k]
 
     if vsum > 0:
-        out[n_periods-1] = close[n_periods-1] / (wsum / vsum) - 1.0
+        if is_log:
+            out[n_periods-1] = np.log(close[n_periods-1] / (wsum / vsum))
+        else:
+            out[n_periods-1] = close[n_periods-1] / (wsum / vsum) - 1.0
 
     # rolling update
     for i in range(n_periods, n):
-- 
2.43.0


From f5ae2f7c735ca28d879dcd53aabe649aa1855dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 11/31] fix: StochK passed high and close in each other's place

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 2e99d41..d8e2157 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -300,7 +300,7 @@ class StochK(MISOTransform):
         low = input_dict[self.requires[1]]
         close = input_dict[self.requires[2]]
 
-        result = stoch_k(high, low, close, self.length)
+        result = stoch_k(close, low, high, self.length)
 
         return self._prepare_output_nb(x.index, result)
 
-- 
2.43.0


From 33b7cb6e96cc484b5661ae06b81cf1f26b3a8225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:41 +0000
Subject: [PATCH 12/31] fix: keep the buyer-maker flag with its trade through
 sorting and duplicate removal

---
 finmlkit/bar/data_model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index e91437d..e0f3dc4 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -299,6 +299,10 @@ class TradesData:
         self.data_ok = True
         self.discontinuities = []  # Reset discontinuities list
 
+        # The side info must follow its trade through sorting and duplicate removal
+        if self.is_buyer_maker is not None:
+            self.data['is_buyer_maker'] = self.is_buyer_maker
+
         # Sort by ID to inspect data integrity
         self.data.sort_values(by=['id'], inplace=True)
         # Reset index
@@ -323,6 +327,9 @@ class TradesData:
         # Reset index
         self.data.reset_index(drop=True, inplace=True)
 
+        if self.is_buyer_maker is not None:
+            self.is_buyer_maker = self.data.pop('is_buyer_maker').values
+
     def _merge_trades(self):
         """
         Merge trades that occur at the same timestamp and price level.
-- 
2.43.0


From 3bcab7801a1fd08b0cf9a9922be4ab8c1b3f80b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 13/31] fix: preprocessing dropped the trade sides it was given

---
 finmlkit/bar/data_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index e0f3dc4..cc5252b 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -164,6 +164,8 @@ class TradesData:
         self.is_buyer_maker = is_buyer_maker
         if side is not None:
             self._data['side'] = side
+            if is_buyer_maker is None and preprocess:
+                self.is_buyer_maker = side < 0  # a sell order hits the bid, so the buyer was the maker
         self._orig_timestamp_unit = timestamp_unit if timestamp_unit else self._infer_timestamp_unit()
         self.name = name
 
-- 
2.43.0


From 32fb25a2e48292396e7385d5f2c1996692b9d20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:55 +0000
Subject: [PATCH 14/31] fix: timestamps narrower than 64 bits overflowed when
 converted to nanoseconds

---
 finmlkit/bar/data_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index cc5252b..5c617cd 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -374,7 +374,7 @@ class TradesData:
         # trades.timestamp = pd.to_datetime(trades.timestamp, unit=timestamp_unit).astype(np.int64).values
         # Work directly on the underlying NumPy array for better performance
         factor = unit_scale_factor[self.orig_timestamp_unit]
-        self._data['timestamp'].values[:] = np.multiply(self.data['timestamp'].values, factor, dtype=np.int64)
+        self._data['timestamp'] = np.multiply(self.data['timestamp'].values, factor, dtype=np.int64)
 
     def _apply_timestamp_resolution(self, proc_res: Optional[str]) -> None:
         """
-- 
2.43.0


From b9e04f0d72754038f370a6a363d7c9aa493b1dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:04 +0000
Subject: [PATCH 15/31] fix: the vertical barrier was placed with float64
 timestamps, up to 128 ns off

---
 finmlkit/label/tbm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 882f9f3..0bdbd81 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -93,7 +93,9 @@ def triple_barrier(
 
         # Find vertical barrier index
         t0 = timestamps[t0_idx]         # Start timestamp
-        t1 = t0 + vertical_barrier_ns   # End timestamp
+        # End timestamp in integer nanoseconds (absolute timestamps are not exact in float64)
+        t_last = timestamps[-1]
+        t1 = t_last if vertical_barrier_ns >= t_last - t0 else t0 + np.int64(round(vertical_barrier_ns))
         t1_idx = np.searchsorted(timestamps, t1, side='right') - 1
         if t1_idx <= t0_idx:
             print("Warning: Vertical barrier index is less than or equal to event index. Skipping this event.")
-- 
2.43.0


From 8ca5effd8cb269f042b400733a30acf1c00b8ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:40 +0000
Subject: [PATCH 16/31] fix: datetime indices with a unit other than
 nanoseconds were misread as nanoseconds

---
 finmlkit/feature/base.py | 2 +-
 finmlkit/label/kit.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/base.py b/finmlkit/feature/base.py
index 04d5585..a444e3a 100644
--- a/finmlkit/feature/base.py
+++ b/finmlkit/feature/base.py
@@ -295,7 +295,7 @@ class CoreTransform(BaseTransform, ABC):
 
         """
         self._check_datetime_index(x)
-        return x.index.values.astype(np.int64)
+        return x.index.values.astype("datetime64[ns]").astype(np.int64)
 
     # --- to be implemented by children --------------------------------------
     @abstractmethod
diff --git a/finmlkit/label/kit.py b/finmlkit/label/kit.py
index 776ea1f..95f9b52 100644
--- a/finmlkit/label/kit.py
+++ b/finmlkit/label/kit.py
@@ -285,7 +285,7 @@ class TBMLabel:
         if "event_idx" in self._features.columns:
             event_idx = self._features.event_idx.values
         else:
-            event_idx = np.searchsorted(trades.data.timestamp.values, self._features.index.values.astype(np.int64))
+            event_idx = np.searchsorted(trades.data.timestamp.values, self._features.index.values.astype("datetime64[ns]").astype(np.int64))
 
         # Call the triple_barrier function
         labels, touch_idx, rets, max_rb_ratios = triple_barrier(
-- 
2.43.0


From 48d4a685154cbc557fdd06e8b6d4c3b1e6a67ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:40 +0000
Subject: [PATCH 17/31] fix: the daily gap used the same day's last close
 instead of the last close before midnight

The shifted series was reduced with last(), which looks ahead by up to a day; tz-aware indices got no gap at all.
---
 finmlkit/feature/transforms.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index d8e2157..5cdcf71 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1095,8 +1095,8 @@ class DailyGap(SISOTransform):
         # Get close prices at 00:00 UTC (first value of each day)
         midnight_close = series.resample('D').first()
 
-        # Get close prices at 23:45 UTC from previous day (last value of each day after shifting)
-        prev_2345_close = series.shift(1).resample('D').last()
+        # Get close prices at 23:45 UTC from previous day (first value of each day after shifting)
+        prev_2345_close = series.shift(1).resample('D').apply(lambda s: s.iloc[0] if len(s) else np.nan)
 
         # Calculate the gap as percentage change
         daily_gap = (midnight_close - prev_2345_close) / prev_2345_close
@@ -1105,12 +1105,9 @@ class DailyGap(SISOTransform):
         # We'll set the gap value for each day at midnight
         for date, gap in daily_gap.items():
             if not np.isnan(gap):
-                # Find the first timestamp in the original series for this day
-                day_start = pd.Timestamp(date.year, date.month, date.day)
-
-                # If this timestamp exists in the original index, set the gap value
-                if day_start in result.index:
-                    result.loc[day_start] = gap
+                # If midnight exists in the original index, set the gap value
+                if date in result.index:
+                    result.loc[date] = gap
 
         return result
 
-- 
2.43.0


From 4cb2b23a92c829de63c3a5d1b4bb1962c27477c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:40 +0000
Subject: [PATCH 18/31] fix: PctChange's pandas backend kept the input column's
 name and its window was not restored from a saved config

---
 finmlkit/feature/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 5cdcf71..18760f2 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -190,11 +190,12 @@ class PctChange(SISOTransform):
         :return: The percentage change of the signal.
         """
         super().__init__(input_col, f"pctc{window}")
+        self.window = window
         self.periods = window
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
         series = x[self.requires[0]]
-        return series.pct_change(self.periods)
+        return series.pct_change(self.periods).rename(self.output_name)
 
     def _nb(self, x: Union[pd.DataFrame, pd.Series]) -> pd.Series:
         input_arr = self._prepare_input_nb(x)
-- 
2.43.0


From f6147bfe4c6cb159ad8c4b0a2f9e08077452d1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:40 +0000
Subject: [PATCH 19/31] fix: directional run lengths overflowed int8 after 127
 bars

---
 finmlkit/feature/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 18760f2..4548a34 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1641,9 +1641,9 @@ class DirRunLen(SISOTransform):
         :return: Array containing directional run lengths
         """
         n = len(x)
-        run_lengths = np.zeros(n, dtype=np.int8)
+        run_lengths = np.zeros(n, dtype=np.int64)
 
-        if n == 0:
+        if n < 2:
             return run_lengths
 
         prev_sign = np.sign(x[1])
-- 
2.43.0


From 5124811f7670c7d278e79493ca2c6c815b6d2fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:40 +0000
Subject: [PATCH 20/31] fix: Compose looked cached steps up under the wrong
 name and renamed the cached column

---
 finmlkit/feature/kit.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 341e6a9..e92fed9 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -681,7 +681,7 @@ class Compose(BaseTransform):
 
         current_series = None
         for i, tfs in enumerate(self.transforms):
-            out_name = tfs.produces[0]
+            out_name = tfs.output_name
 
             # If this step's output already exists, reuse it
             if out_name in x.columns:
@@ -706,8 +706,7 @@ class Compose(BaseTransform):
             # If consumers expect caching to materialize, FeatureKit handles DataFrame accumulation.
 
         # Return the final output Series with the composed name
-        current_series.name = final_name
-        return current_series
+        return current_series.rename(final_name)
 
     def __call__(self, x: pd.DataFrame, *, backend="nb") -> pd.Series:
         """
-- 
2.43.0


From ab8828d84f6eae574c3c617131a82633502eb7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:40 +0000
Subject: [PATCH 21/31] fix: renamed and multi-output features lost their names
 and their place in the dependency order

---
 finmlkit/feature/kit.py   |  4 ++--
 finmlkit/feature/utils.py | 14 +++++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index e92fed9..384fab7 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -1058,8 +1058,8 @@ class FeatureKit:
                 df[feat.transform.output_name] = res  # cache the result in the DataFrame (for compose transforms)
             elif isinstance(res, tuple):
                 # Multi output transform case
-                for item in res:
-                    out[item.name] = item
+                for name, item in zip(feat.name, res):
+                    out[name] = item
                     df[item.name] = item  # cache the result in the DataFrame (for compose transforms)
             else:
                 raise TypeError(f"Transform {feat} returned unexpected type: {type(res)}")
diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index d6fad11..526d912 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -359,7 +359,11 @@ def _flatten_requires(t: BaseTransform) -> List[str]:
 def build_feature_graph(features: List["Feature"]) -> ComputationGraph:
     g = ComputationGraph()
     # Map of feature output names for cross-referencing
-    outputs = {str(f.name): f for f in features if isinstance(f.name, (str,))}
+    outputs = {}
+    for f in features:
+        out_cols = f.transform.output_name
+        for col in [out_cols] if isinstance(out_cols, str) else out_cols:
+            outputs[col] = str(f.name)
 
     def _child_out_names(t: BaseTransform) -> List[str]:
         if isinstance(t, (BinaryOpTransform, MinMaxOpTransform)):
@@ -386,12 +390,12 @@ def build_feature_graph(features: List["Feature"]) -> ComputationGraph:
             g.add_edge(in_node, out_name)
         # Edges from child transforms if those outputs are also features
         for child_out in _child_out_names(f.transform):
-            if child_out in outputs and child_out != out_name:
-                g.add_edge(child_out, out_name)
+            if child_out in outputs and outputs[child_out] != out_name:
+                g.add_edge(outputs[child_out], out_name)
         # Back-compat: dependencies on other features if require equals other feature's output
-        for other_name in outputs.keys():
+        for col, other_name in outputs.items():
             if other_name == out_name:
                 continue
-            if other_name in reqs:
+            if col in reqs:
                 g.add_edge(other_name, out_name)
     return g
-- 
2.43.0


From 167efbf38513efc66cb32633ff42d0bbac68df95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:40 +0000
Subject: [PATCH 22/31] fix: saved feature configs lost windows, half-lives,
 numpy scalars, ema adjust and renamed outputs

---
 finmlkit/feature/kit.py        |  2 +-
 finmlkit/feature/transforms.py |  3 +++
 finmlkit/feature/utils.py      | 12 ++++++++----
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 384fab7..88b8384 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -397,7 +397,7 @@ class Feature:
         :param adjust: Whether to adjust the EMA calculation (default is True)
         :return: A new Feature with EMA values
         """
-        return self.apply(lambda x: x.ewm(span=span, adjust=adjust).mean(), suffix=f"ema{span}")
+        return self.apply(lambda x: x.ewm(span=span, adjust=adjust).mean(), suffix=f"ema{span}" if adjust else f"ema{span}_noadj")
 
     def rolling_sum(self, window):
         """
diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 4548a34..77c34ec 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -102,6 +102,7 @@ class ReturnT(SISOTransform):
         window_sec = window.total_seconds()
         output_col = f"ret{window_sec}s" if window_sec > 1e-6 else "ret1"
         super().__init__(input_col, output_col)
+        self.window = window
         self.window_sec = window_sec
         self.is_log = is_log
 
@@ -319,6 +320,7 @@ class EWMST(SISOTransform):
         """
         half_life_sec = half_life.total_seconds()
         super().__init__(input_col, f"ewms{half_life_sec}s")
+        self.half_life = half_life
         self.half_life_sec = half_life_sec
 
     def _pd(self, x):
@@ -1232,6 +1234,7 @@ class BarRate(SISOTransform):
         output_name = f"bars_per_hour" if window_min.is_integer() else f"rate_{window_min}m"
 
         super().__init__(input_col, output_name)
+        self.window = window
         self.out_name = output_name
         self.window_sec = window_sec
 
diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index 526d912..47b4130 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -26,6 +26,8 @@ def _serialize_value(val: Any) -> Any:
         pd = None
     if pd is not None and isinstance(val, pd.Timedelta):
         return {"__timedelta__": True, "seconds": val.total_seconds()}
+    if isinstance(val, np.generic):
+        return val.item()
     if isinstance(val, (str, int, float, bool)) or val is None:
         return val
     if isinstance(val, (list, tuple)):
@@ -113,9 +115,9 @@ def _maybe_unary_from_name(name: str):
             n = int(name[len(base):])
             return lambda x: x.rolling(window=n).sum()
         if name.startswith("ema"):
-            n = int(name[len("ema"):])
-            # Default to adjust=True (matches Feature.ema default)
-            return lambda x: x.ewm(span=n, adjust=True).mean()
+            adjust = not name.endswith("_noadj")
+            n = int(name[len("ema"):].removesuffix("_noadj"))
+            return lambda x: x.ewm(span=n, adjust=adjust).mean()
         if name.startswith("lag"):
             n = int(name[len("lag"):])
             return lambda x: x.shift(n)
@@ -259,7 +261,9 @@ def transform_from_config(cfg: Dict[str, Any]) -> BaseTransform:
         op = _maybe_unary_from_name(op_name)
         if op is None:
             raise ValueError(f"Unsupported unary op: {op_name}")
-        return UnaryOpTransform(child, op_name, op)
+        t = UnaryOpTransform(child, op_name, op)
+        t.produces = list(cfg.get("produces", t.produces))
+        return t
     if kind == "compose":
         # lazy import to avoid circular dependency at import-time
         from finmlkit.feature.kit import Compose  # type: ignore
-- 
2.43.0


From 836ccd72b8837b0ee7053ca868cb15c2c77a201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 23/31] fix: stored trade metadata did not span the rows after
 an append and rounded timestamps to float64

Loading by time range skips partitions by these two timestamps, so rows at the edge of a range were lost.
---
 finmlkit/bar/data_model.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 5c617cd..6febe42 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -542,15 +542,22 @@ class TradesData:
             # ------------------------------------------------------------------
             #  Update lightweight per‑group metadata (fast group discovery later)
             # ------------------------------------------------------------------
+            first_ts, last_ts = int(frame["timestamp"].iloc[0]), int(frame["timestamp"].iloc[-1])
+            if month_exists and not should_overwrite:
+                # Appended: the group still holds the rows it had before
+                prev_meta = store[meta_key]
+                first_ts = min(first_ts, int(prev_meta["first_timestamp"]))
+                last_ts = max(last_ts, int(prev_meta["last_timestamp"]))
             meta = pd.Series(
                 {
                     "record_count": len(frame) if should_overwrite else (
                         store.get_storer(h5_key).nrows if month_exists else len(frame)),
-                    "first_timestamp": int(frame["timestamp"].iloc[0]),
-                    "last_timestamp": int(frame["timestamp"].iloc[-1]),
+                    "first_timestamp": first_ts,
+                    "last_timestamp": last_ts,
                     "data_integrity_ok": self.data_ok,  # Add integrity flag to main metadata
                     "missing_pct": self.missing_pct     # Add count of discontinuities
-                }
+                },
+                dtype=object  # float64 would round the nanosecond timestamps
             )
             store.put(meta_key, meta, format="fixed")
 
-- 
2.43.0


From 3e7eb87fa1025dea36970a7e89df112211e8c113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 24/31] fix: loading overlapping partitions could reorder
 trades of the same timestamp

---
 finmlkit/bar/data_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 6febe42..523b348 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -777,7 +777,7 @@ class TradesData:
         # Ensure the DataFrame index is sorted
         if not df.index.is_monotonic_increasing:
             logger.info("Sorting DataFrame by datetime index after concatenation...")
-            df.sort_index(inplace=True)
+            df.sort_index(inplace=True, kind="stable")
 
         logger.info(f"Successfully loaded {len(df):,} trades from {len(frames)} monthly groups.")
 
-- 
2.43.0


From 0a6f9fc320da1486a7e9a4908c5ec3e3b832b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:15 +0000
Subject: [PATCH 25/31] fix: reading an empty time range of bars at a timeframe
 raised instead of returning no bars

---
 finmlkit/bar/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 956336c..c467f48 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -868,8 +868,8 @@ class TimeBarReader:
             df = df[(df.index >= start_time if start_time is not None else True) &
                    (df.index <= end_time if end_time is not None else True)]
 
-        # Return original timeframe if no resampling requested
-        if timeframe is None:
+        # Return original timeframe if no resampling requested or nothing to resample
+        if timeframe is None or df.empty:
             return df
 
         # If we're resampling to a daily timeframe and we have an incomplete last day,
-- 
2.43.0


From 8c0f6a1d1a0886275c61d0f44cbd3fca6f54def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 26/31] fix: infer price ticks with more than one significant
 digit

---
 finmlkit/bar/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/utils.py b/finmlkit/bar/utils.py
index a1a3dee..1dd4445 100644
--- a/finmlkit/bar/utils.py
+++ b/finmlkit/bar/utils.py
@@ -66,7 +66,8 @@ def comp_price_tick_size(prices: NDArray[np.float64]) -> float:
         return 0.0
 
     diffs = np.diff(unique_prices)
-    scale = 10.0 ** (-np.floor(np.log10(np.min(diffs[diffs > 0]))))
+    # Keep two digits below the leading digit of the smallest move (ticks such as 0.25 or 0.125)
+    scale = 10.0 ** (2.0 - np.floor(np.log10(np.min(diffs[diffs > 0]))))
     int_px = np.round(unique_prices * scale).astype(np.int64)
 
     # Calculate greatest common divisor
-- 
2.43.0


From 82e7cf144a6449ff55589ec8388b847a86435281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 27/31] fix: write developing volume profile relative to the
 range start

---
 finmlkit/feature/core/volume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 38a6bbb..9f28c32 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -562,9 +562,9 @@ def volume_profile_developing(ts: np.ndarray, highs: np.ndarray, lows: np.ndarra
             poc_price, hva_price, lva_price = comp_poc_hva_lva(price_levels_window, developing_total_volumes,
                                                                va_pct)
 
-        poc_prices[t] = poc_price
-        hva_prices[t] = hva_price
-        lva_prices[t] = lva_price
+        poc_prices[t - start_idx] = poc_price
+        hva_prices[t - start_idx] = hva_price
+        lva_prices[t - start_idx] = lva_price
 
     return ts[start_idx:end_idx], poc_prices, hva_prices, lva_prices
 
-- 
2.43.0


From 61b5fa77eb46e2afa3e873c86e4db168d095fe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:49 +0000
Subject: [PATCH 28/31] fix: keep footprints with equal level counts as one
 array per bar

---
 finmlkit/bar/data_model.py | 40 +++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 523b348..8ca512a 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -788,6 +788,18 @@ class TradesData:
                    side=side_values, dt_index=df.index)
 
 
+def _object_array(arrays) -> NDArray:
+    """
+    Wrap a sequence of arrays into a 1D object array (also when all of them have the same length).
+    :param arrays: Sequence of 1D arrays.
+    :returns: 1D object array holding the arrays.
+    """
+    result = np.empty(len(arrays), dtype=object)
+    for i, array in enumerate(arrays):
+        result[i] = array
+    return result
+
+
 @dataclass
 class FootprintData:
     """
@@ -930,14 +942,14 @@ class FootprintData:
         """
         instance = cls(
             bar_timestamps=np.array(data[0], dtype=np.int64),
-            price_levels=np.array(data[1], dtype=object),
+            price_levels=_object_array(data[1]),
             price_tick=price_tick,
-            buy_volumes=np.array(data[2], dtype=object),
-            sell_volumes=np.array(data[3], dtype=object),
-            buy_ticks=np.array(data[4], dtype=object),
-            sell_ticks=np.array(data[5], dtype=object),
-            buy_imbalances=np.array(data[6], dtype=object),
-            sell_imbalances=np.array(data[7], dtype=object),
+            buy_volumes=_object_array(data[2]),
+            sell_volumes=_object_array(data[3]),
+            buy_ticks=_object_array(data[4]),
+            sell_ticks=_object_array(data[5]),
+            buy_imbalances=_object_array(data[6]),
+            sell_imbalances=_object_array(data[7]),
             buy_imbalances_sum=np.array(data[8], dtype=np.uint16),
             sell_imbalances_sum=np.array(data[9], dtype=np.uint16),
             cot_price_levels=np.array(data[10], dtype=np.int32),
@@ -1023,13 +1035,13 @@ class FootprintData:
         """
         Convert internal lists to NumPy arrays for general-purpose processing.
         """
-        self.price_levels = np.array(self.price_levels, dtype=object)
-        self.buy_volumes = np.array(self.buy_volumes, dtype=object)
-        self.sell_volumes = np.array(self.sell_volumes, dtype=object)
-        self.buy_ticks = np.array(self.buy_ticks, dtype=object)
-        self.sell_ticks = np.array(self.sell_ticks, dtype=object)
-        self.buy_imbalances = np.array(self.buy_imbalances, dtype=object)
-        self.sell_imbalances = np.array(self.sell_imbalances, dtype=object)
+        self.price_levels = _object_array(self.price_levels)
+        self.buy_volumes = _object_array(self.buy_volumes)
+        self.sell_volumes = _object_array(self.sell_volumes)
+        self.buy_ticks = _object_array(self.buy_ticks)
+        self.sell_ticks = _object_array(self.sell_ticks)
+        self.buy_imbalances = _object_array(self.buy_imbalances)
+        self.sell_imbalances = _object_array(self.sell_imbalances)
 
     def memory_usage(self):
         """Calculate the approximate memory usage of this object in MB."""
-- 
2.43.0


From 21baf7ad4fd73f55e89971764ab02d57e004e772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:08 +0000
Subject: [PATCH 29/31] fix: CUSUMTest ages wrapped for max_age above 255

---
 finmlkit/feature/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 77c34ec..16ae5e7 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -695,10 +695,10 @@ class CUSUMTest(SIMOTransform):
         # Calculate age features (bars since last break)
         # For each flag=1, we start a new group, then count within that group
         age_up = flag_up_series.groupby((flag_up_series == 1).cumsum()).cumcount()
-        age_up = age_up.clip(0, self.max_age).astype(np.uint8).values
+        age_up = age_up.clip(0, self.max_age).astype(np.min_scalar_type(self.max_age)).values
 
         age_down = flag_down_series.groupby((flag_down_series == 1).cumsum()).cumcount()
-        age_down = age_down.clip(0, self.max_age).astype(np.uint8).values
+        age_down = age_down.clip(0, self.max_age).astype(np.min_scalar_type(self.max_age)).values
 
         # Return all features
         return self._prepare_output_nb(
-- 
2.43.0


From 035530612f087e58b6a77e01c413a9cd4403b0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:18 +0000
Subject: [PATCH 30/31] fix: lagged returns of sub-second windows compared
 nanosecond times rounded to float

---
 finmlkit/feature/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/utils.py b/finmlkit/feature/core/utils.py
index 6bc180e..c1f6d79 100644
--- a/finmlkit/feature/core/utils.py
+++ b/finmlkit/feature/core/utils.py
@@ -36,7 +36,7 @@ def comp_lagged_returns(timestamps: NDArray[np.int64], close: NDArray[np.float64
     n = len(close)
     returns = np.empty(n, dtype=np.float64)
     returns.fill(np.nan)
-    ret_window_ns = return_window_sec * 1e9
+    ret_window_ns = int(round(return_window_sec * 1e9))
 
     # Find the first index where the lookback window is fully contained
     start_idx = np.searchsorted(timestamps, timestamps[0] + ret_window_ns, side='left')
-- 
2.43.0


From 402e58a7e126af0e06f9335b0c1c759b5cdb3083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:07 +0000
Subject: [PATCH 31/31] fix: volume-profile windows of fractional seconds were
 truncated below their length

---
 finmlkit/feature/core/volume.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 9f28c32..80609e3 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -112,7 +112,7 @@ class VolumePro:
 
         start = pd.to_datetime(start)
         # Subtract the window size from the start timestamp to eliminate the first window warm-up
-        adjusted_start = start - pd.Timedelta(seconds=self.window_size_sec)
+        adjusted_start = start - pd.Timedelta(int(round(self.window_size_sec * 1e9)), unit="ns")
 
         # Use FootprintBT's slicing to get the range
         fp_data_subset = fp_data[adjusted_start:end]
@@ -420,7 +420,7 @@ def volume_profile_rolling(ts: np.ndarray, highs: np.ndarray, lows: np.ndarray,
     lva_prices = np.zeros(n_bars, dtype=np.int32)
     vp_pct_abv_poc = np.zeros(n_bars, dtype=np.float32)  # New array for percentage above POC
 
-    window_interval_ns = int(window_size_sec * 1e9)
+    window_interval_ns = int(round(window_size_sec * 1e9))
     first_interval_idx = np.searchsorted(ts, ts[0] + window_interval_ns)
 
 
-- 
2.43.0

