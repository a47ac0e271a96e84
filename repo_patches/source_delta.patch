From 8ab808b6ab6c3d739c9836af72dfffa7196a1bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 01/37] fix: compute time bar boundaries in integer nanoseconds

Epoch nanosecond timestamps exceed 2**53; the float64 arithmetic moved trades
within 128 ns of a boundary into the wrong bar, shifted sub-second boundaries
off their grid and could drop the final bar.
---
 finmlkit/bar/logic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/logic.py b/finmlkit/bar/logic.py
index d95da3b..2445cd9 100644
--- a/finmlkit/bar/logic.py
+++ b/finmlkit/bar/logic.py
@@ -27,13 +27,14 @@ def _time_bar_indexer(
         The first bar is aligned to the ceiling of the first timestamp, ensuring consistent bar boundaries.
         Duplicate indices may occur if a bar interval contains no trades (empty bars).
     """
-    bar_interval_ns = interval_seconds * 1e9
+    # integer nanoseconds: epoch timestamps exceed 2**53, so float arithmetic would round them
+    bar_interval_ns = np.int64(round(interval_seconds * 1e9))
 
     # determine the first bar start time (closest integer multiple of bar_interval_ns)
     bar_start_ts = timestamps[0] // bar_interval_ns * bar_interval_ns
 
     # last tick timestamp
-    last_ts = np.ceil(timestamps[-1] / bar_interval_ns) * bar_interval_ns
+    last_ts = -(-timestamps[-1] // bar_interval_ns) * bar_interval_ns
 
     # create the array of bar close timestamps
     bar_clock = np.arange(bar_start_ts, last_ts + bar_interval_ns + 1, bar_interval_ns, dtype=np.int64)
-- 
2.43.0


From 58e323eddc266c06228fe3cd63d4cc742a7e8c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 02/37] fix: reject CUSUM bar inputs whose lengths differ

---
 finmlkit/bar/logic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/logic.py b/finmlkit/bar/logic.py
index 2445cd9..445101f 100644
--- a/finmlkit/bar/logic.py
+++ b/finmlkit/bar/logic.py
@@ -172,7 +172,7 @@ def _cusum_bar_indexer(
     :param sigma_mult: sigma multiplier for the CUSUM filter (threshold will be lambda_mult*sigma).
     :returns: close_indices
     """
-    if len(prices) != len(sigma) != len(timestamps):
+    if len(prices) != len(sigma) or len(prices) != len(timestamps):
         raise ValueError("Prices, timestamps, and sigma arrays must have the same length.")
 
     n = len(prices)
-- 
2.43.0


From 7982704c7783349d0cda42606e6473fc3f055d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 03/37] fix: CUSUM bar kit no longer forward-fills the caller's
 sigma in place

---
 finmlkit/bar/kit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/kit.py b/finmlkit/bar/kit.py
index f20f8db..a1fe82e 100644
--- a/finmlkit/bar/kit.py
+++ b/finmlkit/bar/kit.py
@@ -154,7 +154,7 @@ class CUSUMBarKit(BarBuilderBase):
         """
         super().__init__(trades)
         self.lambda_mult = sigma_mult
-        self._sigma = sigma
+        self._sigma = np.array(sigma)  # own copy: the indexer forward-fills NaN values in place
         self.sigma_floor = sigma_floor
 
         logger.info(f"CUSUM Bar builder initialized with: sigma multiplier={sigma_mult}.")
-- 
2.43.0


From 3156fb03f212a054c3d3738e7aba21bd5bf0399f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 04/37] fix: directional bar features of first, single-trade
 and empty bars

The first bar compared its first trade with the last trade of the data set
(index -1), single-trade bars always counted a change of side, bars without
signed trades reported +-1e9 sentinels, and running values beyond 1e9 were
clipped by them.
---
 finmlkit/bar/base.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index fc486e5..a9ff540 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -455,13 +455,13 @@ def comp_bar_directional_features(
     max_spread = np.zeros(n_bars, dtype=np.float32)
     mean_spread = np.zeros(n_bars, dtype=np.float32)
 
-    # Initialize cumulative min and max arrays with appropriate values
-    cum_ticks_min = np.full(n_bars, 1e9, dtype=np.int64)            # inf (large value)
-    cum_ticks_max = np.full(n_bars, -1e9, dtype=np.int64)                   # -inf (small value)
-    cum_volumes_min = np.full(n_bars, 1e9, dtype=np.float32)
-    cum_volumes_max = np.full(n_bars, -1e9, dtype=np.float32)
-    cum_dollars_min = np.full(n_bars, 1e9, dtype=np.float32)
-    cum_dollars_max = np.full(n_bars, -1e9, dtype=np.float32)
+    # Cumulative min and max arrays; set by the first signed trade of each bar, zero if there is none
+    cum_ticks_min = np.zeros(n_bars, dtype=np.int64)
+    cum_ticks_max = np.zeros(n_bars, dtype=np.int64)
+    cum_volumes_min = np.zeros(n_bars, dtype=np.float32)
+    cum_volumes_max = np.zeros(n_bars, dtype=np.float32)
+    cum_dollars_min = np.zeros(n_bars, dtype=np.float32)
+    cum_dollars_max = np.zeros(n_bars, dtype=np.float32)
 
     # Compute the bar directional features
     for i in prange(n_bars):
@@ -482,10 +482,12 @@ def comp_bar_directional_features(
         current_cum_spread = 0.0
 
         # Initialize previous tick sign for spread calculation
-        if end > start:
+        if end < start:
+            prev_tick_sign = 0  # Default value if no trades in bar
+        elif start > 0:
             prev_tick_sign = trade_sides[start - 1]  # Previous trade side at the start of the bar
         else:
-            prev_tick_sign = 0  # Default value if no trades in bar
+            prev_tick_sign = trade_sides[start]  # There is no trade before the very first one
 
         # Iterate over trades in the current bar (start exclusive, end inclusive)
         for j in range(start, end + 1):
@@ -519,6 +521,11 @@ def comp_bar_directional_features(
                 continue
 
             # Update the cumulative min and max values
+            if current_tics_buy + current_tics_sell == 1:
+                cum_ticks_max[i] = cum_ticks_min[i] = current_cum_ticks
+                cum_volumes_max[i] = cum_volumes_min[i] = current_cum_volumes
+                cum_dollars_max[i] = cum_dollars_min[i] = current_cum_dollars
+                continue
             cum_ticks_max[i] = max(cum_ticks_max[i], current_cum_ticks)
             cum_ticks_min[i] = min(cum_ticks_min[i], current_cum_ticks)
             cum_volumes_max[i] = max(cum_volumes_max[i], current_cum_volumes)
@@ -533,7 +540,8 @@ def comp_bar_directional_features(
         dollars_buy[i] = current_dollars_buy
         dollars_sell[i] = current_dollars_sell
         max_spread[i] = current_max_spread
-        mean_spread[i] = current_cum_spread / (current_tics_buy + current_tics_sell)
+        n_signed = current_tics_buy + current_tics_sell
+        mean_spread[i] = current_cum_spread / n_signed if n_signed > 0 else np.nan
 
     return (
         ticks_buy, ticks_sell,
-- 
2.43.0


From c94cf23da0ab6b1ec6b081b1c87b5040402a293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 05/37] fix: infer the tick size on a decimal grid that
 contains every observed price

---
 finmlkit/bar/utils.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/finmlkit/bar/utils.py b/finmlkit/bar/utils.py
index a1a3dee..da367b8 100644
--- a/finmlkit/bar/utils.py
+++ b/finmlkit/bar/utils.py
@@ -65,9 +65,19 @@ def comp_price_tick_size(prices: NDArray[np.float64]) -> float:
     if len(unique_prices) <= 1:
         return 0.0
 
-    diffs = np.diff(unique_prices)
-    scale = 10.0 ** (-np.floor(np.log10(np.min(diffs[diffs > 0]))))
-    int_px = np.round(unique_prices * scale).astype(np.int64)
+    # Express the distances from the lowest price as integers on the coarsest decimal grid that contains them all
+    offsets = unique_prices - unique_prices[0]
+    min_diff = np.min(np.diff(unique_prices))
+    max_abs_price = np.max(np.abs(unique_prices))
+    scale = 1.0
+    for decimals in range(13):
+        scale = 10.0 ** decimals
+        if min_diff * scale < 0.5:
+            continue
+        scaled = offsets * scale
+        if np.max(np.abs(scaled - np.round(scaled))) <= 1e-9 + 1e-15 * max_abs_price * scale:
+            break
+    int_px = np.round(offsets * scale).astype(np.int64)
 
     # Calculate greatest common divisor
     # tick_int = np.gcd.reduce(np.diff(int_px))  # numba does not support it
-- 
2.43.0


From b6767b6b6cd5bf4d05d9a8960388983b3759c480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 06/37] fix: triple barrier labels: exact time barrier,
 disabled barriers, last-price touches, skipped events

---
 finmlkit/label/tbm.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 0e749fa..7c26624 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -84,16 +84,20 @@ def triple_barrier(
         # -> This should be done in a preprocessing step before calling this function.
 
         # Upper and lower barriers in log-return space
-        upper_barrier = tgt * top_mult
-        lower_barrier = -tgt * bottom_mult
+        # An infinite multiplier (of either sign) disables the barrier
+        upper_barrier = tgt * top_mult if np.isfinite(top_mult) else np.inf
+        lower_barrier = -tgt * bottom_mult if np.isfinite(bottom_mult) else -np.inf
         # Pre-compute barrier conditions outside the loop
         upper_valid = np.isfinite(upper_barrier) and upper_barrier != 0.0
         lower_valid = np.isfinite(lower_barrier) and lower_barrier != 0.0
 
-        # Find vertical barrier index
+        # Find vertical barrier index (integer nanoseconds: float64 cannot represent epoch timestamps exactly)
         t0 = timestamps[t0_idx]         # Start timestamp
-        t1 = t0 + vertical_barrier_ns   # End timestamp
+        t1 = timestamps[-1]             # End timestamp
+        if vertical_barrier_ns < t1 - t0:
+            t1 = t0 + np.int64(np.round(vertical_barrier_ns))
         t1_idx = np.searchsorted(timestamps, t1, side='right') - 1
+        touch_idxs[i_event] = t0_idx    # Defined value for events which cannot be evaluated
         if t1_idx <= t0_idx:
             print("Warning: Vertical barrier index is less than or equal to event index. Skipping this event.")
             print(t0, t1)
@@ -102,6 +106,7 @@ def triple_barrier(
         # ---------- Evaluate the path -----------
         side_mult = side[i_event]
         touch_idx = t1_idx
+        barrier_hit = False
         max_urbr = 0.0
         max_lrbr = 0.0
         base_price = log_close[t0_idx]  # Base price for calculating returns
@@ -126,9 +131,11 @@ def triple_barrier(
             # Check if we touch the barrier
             if ret >= upper_barrier:
                 touch_idx = j
+                barrier_hit = True
                 break
             if ret <= lower_barrier:
                 touch_idx = j
+                barrier_hit = True
                 break
 
         # ---------- Assign the label and other values ------------
@@ -143,7 +150,7 @@ def triple_barrier(
             labels[i_event] = sign if sign != 0 else 1
 
 
-        if touch_idx == t1_idx:
+        if not barrier_hit:
             # Calculate the maximum return-barrier ratio based sample weight
             if ret > 0.:
                 max_rbr = max_urbr / (1 + max_lrbr)
-- 
2.43.0


From b0e0a3d505a7f117caac97da3c7c6a9481d5b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 07/37] fix: time decay with last_weight -1 no longer divides
 by zero

---
 finmlkit/label/weights.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finmlkit/label/weights.py b/finmlkit/label/weights.py
index 275275a..e99a955 100644
--- a/finmlkit/label/weights.py
+++ b/finmlkit/label/weights.py
@@ -127,6 +127,10 @@ def time_decay(
     if cum_avg_uniqueness[-1] == 0.0:
         raise ValueError("The sum of all average uniqueness weights must be grater than 0.")
 
+    if last_weight == -1.0:
+        # Limit case: everything but the newest observation is erased
+        return np.where(cum_avg_uniqueness >= cum_avg_uniqueness[-1], 1.0, 0.0)
+
     if last_weight >= 0.0:
         slope = (1. - last_weight) / cum_avg_uniqueness[-1]
     else:
-- 
2.43.0


From 55b6a77c8e3e10518bb8c3af6be7fb1b4057b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 08/37] fix: time-decayed deviation no longer gives weight to
 missing observations

---
 finmlkit/feature/core/volatility.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index b4b16e7..3497fa9 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -184,16 +184,16 @@ def ewmst(
 
         yi = y[i]
 
-        # update weight sums
-        V  = alpha       + one_minus * V
-        V2 = alpha*alpha + (one_minus*one_minus) * V2
-
-        # update EWMA sums
+        # update weight sums and EWMA sums
         if np.isnan(yi):
             # decay only
+            V   = one_minus * V
+            V2  = (one_minus*one_minus) * V2
             Sy  = one_minus * Sy
             Syy = one_minus * Syy
         else:
+            V   = alpha       + one_minus * V
+            V2  = alpha*alpha + (one_minus*one_minus) * V2
             Sy  = alpha * yi        + one_minus * Sy
             Syy = alpha * yi * yi   + one_minus * Syy
 
-- 
2.43.0


From 3eb6b26211e0343baedc38408cabf73955d00776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 09/37] fix: SMA-based ATR treats a missing bar alike at every
 position

---
 finmlkit/feature/core/volatility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 3497fa9..ce5682e 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -406,8 +406,8 @@ def atr(high: NDArray[np.float64],
     else:
         # SMA-based ATR calculation
         for i in range(window-1, n):
-            # Handle the special case for index 2 (NaN in input)
-            if i == 2 and np.isnan(high[i]) and np.isnan(low[i]) and np.isnan(close[i]):
+            # A bar without any price has no ATR
+            if np.isnan(high[i]) and np.isnan(low[i]) and np.isnan(close[i]):
                 atr_values[i] = np.nan
                 continue
 
-- 
2.43.0


From 2c7bbfd75388d23031be508098ac28b614a40999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 10/37] fix: log VWAP distance of the first window

---
 finmlkit/feature/core/reversion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/reversion.py b/finmlkit/feature/core/reversion.py
index afc990a..c6d1c1e 100644
--- a/finmlkit/feature/core/reversion.py
+++ b/finmlkit/feature/core/reversion.py
@@ -37,7 +37,10 @@ def vwap_distance(close: NDArray[np.float64],
         vsum += volume[k]
 
     if vsum > 0:
-        out[n_periods-1] = close[n_periods-1] / (wsum / vsum) - 1.0
+        if is_log:
+            out[n_periods-1] = np.log(close[n_periods-1] / (wsum / vsum))
+        else:
+            out[n_periods-1] = close[n_periods-1] / (wsum / vsum) - 1.0
 
     # rolling update
     for i in range(n_periods, n):
-- 
2.43.0


From 604de8aba73292997ec942609cfd46404d920454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 11/37] fix: lagged returns look up the lag in integer
 nanoseconds

---
 finmlkit/feature/core/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/utils.py b/finmlkit/feature/core/utils.py
index 6bc180e..9f46638 100644
--- a/finmlkit/feature/core/utils.py
+++ b/finmlkit/feature/core/utils.py
@@ -36,7 +36,8 @@ def comp_lagged_returns(timestamps: NDArray[np.int64], close: NDArray[np.float64
     n = len(close)
     returns = np.empty(n, dtype=np.float64)
     returns.fill(np.nan)
-    ret_window_ns = return_window_sec * 1e9
+    # Integer nanoseconds: float64 cannot resolve epoch nanoseconds exactly
+    ret_window_ns = max(np.int64(1), np.int64(round(return_window_sec * 1e9)))
 
     # Find the first index where the lookback window is fully contained
     start_idx = np.searchsorted(timestamps, timestamps[0] + ret_window_ns, side='left')
-- 
2.43.0


From 97930d6997797fd01f43eef906639611272d688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 12/37] fix: developing volume profile of a sub-range, without
 look-ahead and before the first trade

---
 finmlkit/feature/core/volume.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 38a6bbb..96db693 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -543,13 +543,16 @@ def volume_profile_developing(ts: np.ndarray, highs: np.ndarray, lows: np.ndarra
 
         developing_total_volumes = developing_buy_volumes + developing_sell_volumes
 
+        # Keep only the range traded so far: later bars must not influence the profile
+        current_price_levels, developing_total_volumes = trim_trailing_zeros(price_levels_window,
+                                                                             developing_total_volumes)
+        if len(current_price_levels) == 0:
+            continue    # no volume traded yet: the profile is undefined (left at zero)
+
         # Bucket price levels
         if n_bins is not None:
             assert price_tick is not None, "Price tick should be provided for bucketing price levels correctly..."
 
-            # Before bucketing, we have to trim the trailing zeros
-            current_price_levels, developing_total_volumes = trim_trailing_zeros(price_levels_window,
-                                                                                 developing_total_volumes)
             # Bucket the price levels and volumes
             bucketed_price_levels, bucketed_total_volumes = bucket_price_levels(current_price_levels,
                                                                                 developing_total_volumes, n_bins)
@@ -559,12 +562,12 @@ def volume_profile_developing(ts: np.ndarray, highs: np.ndarray, lows: np.ndarra
                                                                va_pct)
         else:
             # Calculate the POC, HVA, and LVA
-            poc_price, hva_price, lva_price = comp_poc_hva_lva(price_levels_window, developing_total_volumes,
+            poc_price, hva_price, lva_price = comp_poc_hva_lva(current_price_levels, developing_total_volumes,
                                                                va_pct)
 
-        poc_prices[t] = poc_price
-        hva_prices[t] = hva_price
-        lva_prices[t] = lva_price
+        poc_prices[t - start_idx] = poc_price
+        hva_prices[t - start_idx] = hva_price
+        lva_prices[t - start_idx] = lva_price
 
     return ts[start_idx:end_idx], poc_prices, hva_prices, lva_prices
 
-- 
2.43.0


From 3f0528c57623ec3cd9d7786e0d1f07fbf927a20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 13/37] fix: buyer-maker flags follow their trades through
 sorting and duplicate removal

---
 finmlkit/bar/data_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index e91437d..d1866bc 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -174,6 +174,9 @@ class TradesData:
         if preprocess:
             if id is None:
                 raise ValueError("id is required if preprocess is True")
+            if is_buyer_maker is not None:
+                # Sorting and duplicate removal must not detach the flag from its trade
+                self._data['is_buyer_maker'] = is_buyer_maker
             self._convert_timestamps_to_ns()
             self._sort_trades()
             self._merge_trades()
@@ -333,7 +336,7 @@ class TradesData:
             self.data['timestamp'].values.astype(np.int64),
             self.data['price'].values.astype(np.float64),
             self.data['amount'].values.astype(np.float32),
-            self.is_buyer_maker,
+            self.data['is_buyer_maker'].values if self.is_buyer_maker is not None else None,
         )
         self._data = pd.DataFrame({
             'timestamp': ts,
-- 
2.43.0


From fdf1627fea3c8ba6a38dc1ee39313f897a721c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 14/37] fix: the first occurrence of a duplicated trade id is
 kept

---
 finmlkit/bar/data_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index d1866bc..860c9d7 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -303,7 +303,7 @@ class TradesData:
         self.discontinuities = []  # Reset discontinuities list
 
         # Sort by ID to inspect data integrity
-        self.data.sort_values(by=['id'], inplace=True)
+        self.data.sort_values(by=['id'], kind='stable', inplace=True)  # stable: the first of duplicates stays first
         # Reset index
         self.data.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From 29fcf4b1fe26b9c6e1c15c68722544c76b1bfd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 15/37] fix: preprocessing keeps trade sides that were supplied

---
 finmlkit/bar/data_model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 860c9d7..8d882df 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -332,18 +332,24 @@ class TradesData:
         """
         logger.info('Merging split trades (same timestamps) on same price level...')
 
+        is_buyer_maker = None
+        if self.is_buyer_maker is not None:
+            is_buyer_maker = self.data['is_buyer_maker'].values
+        elif 'side' in self.data.columns:
+            is_buyer_maker = self.data['side'].values == -1
+
         ts, px, am, side = merge_split_trades(
             self.data['timestamp'].values.astype(np.int64),
             self.data['price'].values.astype(np.float64),
             self.data['amount'].values.astype(np.float32),
-            self.data['is_buyer_maker'].values if self.is_buyer_maker is not None else None,
+            is_buyer_maker,
         )
         self._data = pd.DataFrame({
             'timestamp': ts,
             'price': px,
             'amount': am
         })
-        if self.is_buyer_maker is not None:
+        if is_buyer_maker is not None:
             self._data['side'] = side
 
     def _convert_timestamps_to_ns(self):
-- 
2.43.0


From f537979b523a3a39c7742c4dadc46f1c440a4edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:35 +0000
Subject: [PATCH 16/37] fix: timestamps stored in narrow integers no longer
 overflow when converted to nanoseconds

---
 finmlkit/bar/data_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 8d882df..d931a7a 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -374,7 +374,8 @@ class TradesData:
         # trades.timestamp = pd.to_datetime(trades.timestamp, unit=timestamp_unit).astype(np.int64).values
         # Work directly on the underlying NumPy array for better performance
         factor = unit_scale_factor[self.orig_timestamp_unit]
-        self._data['timestamp'].values[:] = np.multiply(self.data['timestamp'].values, factor, dtype=np.int64)
+        # A new column: the original one may be too narrow (e.g. int32 seconds) to hold nanoseconds
+        self._data['timestamp'] = np.multiply(self.data['timestamp'].values, factor, dtype=np.int64)
 
     def _apply_timestamp_resolution(self, proc_res: Optional[str]) -> None:
         """
-- 
2.43.0


From 3109a0706b6f608074a982841475f1b9aba16cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 17/37] fix: cusum_test_rolling computes its first window as
 soon as the warm-up allows it

---
 finmlkit/feature/core/structural_break/cusum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/structural_break/cusum.py b/finmlkit/feature/core/structural_break/cusum.py
index f2688e2..96a3203 100644
--- a/finmlkit/feature/core/structural_break/cusum.py
+++ b/finmlkit/feature/core/structural_break/cusum.py
@@ -226,7 +226,7 @@ def cusum_test_rolling(
     if window_size < warmup_period + 2:
         window_size = warmup_period + 2  # Minimum window size to allow for calculations
 
-    if n < warmup_period + 2:
+    if n < warmup_period + 1:
         return snt_up, snt_down, critical_values_up, critical_values_down  # Not enough data to process
 
     if n > window_size:
-- 
2.43.0


From 629bba011b7be8454f9b432404616e94f1337267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 18/37] fix: exact timestamps and appended range in the stored
 month metadata

---
 finmlkit/bar/data_model.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index d931a7a..56e453e 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -543,15 +543,25 @@ class TradesData:
             # ------------------------------------------------------------------
             #  Update lightweight per‑group metadata (fast group discovery later)
             # ------------------------------------------------------------------
+            first_timestamp = int(frame["timestamp"].iloc[0])
+            last_timestamp = int(frame["timestamp"].iloc[-1])
+            if month_exists and not should_overwrite and meta_key in store:
+                # Appended: the month covers the stored range as well
+                prev_meta = store[meta_key]
+                first_timestamp = min(first_timestamp, int(prev_meta["first_timestamp"]))
+                last_timestamp = max(last_timestamp, int(prev_meta["last_timestamp"]))
+
+            # dtype=object: without integrity info the Series would become float64 and round the timestamps
             meta = pd.Series(
                 {
                     "record_count": len(frame) if should_overwrite else (
                         store.get_storer(h5_key).nrows if month_exists else len(frame)),
-                    "first_timestamp": int(frame["timestamp"].iloc[0]),
-                    "last_timestamp": int(frame["timestamp"].iloc[-1]),
+                    "first_timestamp": first_timestamp,
+                    "last_timestamp": last_timestamp,
                     "data_integrity_ok": self.data_ok,  # Add integrity flag to main metadata
                     "missing_pct": self.missing_pct     # Add count of discontinuities
-                }
+                },
+                dtype=object,
             )
             store.put(meta_key, meta, format="fixed")
 
-- 
2.43.0


From 5a39f8297aeb9527a99a492dfaafe7a5eebc77d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 19/37] fix: footprint containers keep one typed array per bar
 when all bars have equally many levels

---
 finmlkit/bar/data_model.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 56e453e..1feb70b 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -792,6 +792,14 @@ class TradesData:
                    side=side_values, dt_index=df.index)
 
 
+def _object_rows(rows) -> np.ndarray:
+    """One-dimensional object array with one (typed) array per bar, also when all bars have equally many levels."""
+    out = np.empty(len(rows), dtype=object)
+    for i, row in enumerate(rows):
+        out[i] = row
+    return out
+
+
 @dataclass
 class FootprintData:
     """
@@ -934,14 +942,14 @@ class FootprintData:
         """
         instance = cls(
             bar_timestamps=np.array(data[0], dtype=np.int64),
-            price_levels=np.array(data[1], dtype=object),
+            price_levels=_object_rows(data[1]),
             price_tick=price_tick,
-            buy_volumes=np.array(data[2], dtype=object),
-            sell_volumes=np.array(data[3], dtype=object),
-            buy_ticks=np.array(data[4], dtype=object),
-            sell_ticks=np.array(data[5], dtype=object),
-            buy_imbalances=np.array(data[6], dtype=object),
-            sell_imbalances=np.array(data[7], dtype=object),
+            buy_volumes=_object_rows(data[2]),
+            sell_volumes=_object_rows(data[3]),
+            buy_ticks=_object_rows(data[4]),
+            sell_ticks=_object_rows(data[5]),
+            buy_imbalances=_object_rows(data[6]),
+            sell_imbalances=_object_rows(data[7]),
             buy_imbalances_sum=np.array(data[8], dtype=np.uint16),
             sell_imbalances_sum=np.array(data[9], dtype=np.uint16),
             cot_price_levels=np.array(data[10], dtype=np.int32),
@@ -1027,13 +1035,13 @@ class FootprintData:
         """
         Convert internal lists to NumPy arrays for general-purpose processing.
         """
-        self.price_levels = np.array(self.price_levels, dtype=object)
-        self.buy_volumes = np.array(self.buy_volumes, dtype=object)
-        self.sell_volumes = np.array(self.sell_volumes, dtype=object)
-        self.buy_ticks = np.array(self.buy_ticks, dtype=object)
-        self.sell_ticks = np.array(self.sell_ticks, dtype=object)
-        self.buy_imbalances = np.array(self.buy_imbalances, dtype=object)
-        self.sell_imbalances = np.array(self.sell_imbalances, dtype=object)
+        self.price_levels = _object_rows(self.price_levels)
+        self.buy_volumes = _object_rows(self.buy_volumes)
+        self.sell_volumes = _object_rows(self.sell_volumes)
+        self.buy_ticks = _object_rows(self.buy_ticks)
+        self.sell_ticks = _object_rows(self.sell_ticks)
+        self.buy_imbalances = _object_rows(self.buy_imbalances)
+        self.sell_imbalances = _object_rows(self.sell_imbalances)
 
     def memory_usage(self):
         """Calculate the approximate memory usage of this object in MB."""
-- 
2.43.0


From 11867a1eb0d35b07fc7ad66a591e51a8484621cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 20/37] fix: daily bars keep a final day whose stored bars are
 complete

---
 finmlkit/bar/io.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 956336c..c4790d0 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -879,9 +879,12 @@ class TimeBarReader:
             resampled = self._resample(df, timeframe)
 
             # For daily bars, if the end date is specified without time component,
-            # exclude the last day if it's incomplete
-            last_valid_day = original_end_time - pd.Timedelta(days=1)
-            resampled = resampled[resampled.index <= last_valid_day]
+            # exclude the last period if it's incomplete: the final day counts only when
+            # the stored 1-second bars reach its end
+            _, stored_end = self._list_time_range()
+            day_end = original_end_time + pd.Timedelta(days=1)
+            covered = day_end if stored_end + pd.Timedelta(seconds=1) >= day_end else original_end_time
+            resampled = resampled[resampled.index + pd.tseries.frequencies.to_offset(timeframe) <= covered]
             return resampled
         else:
             # Resample to the requested timeframe normally
-- 
2.43.0


From 9740c6ac0fe05be03e065f8e07a1521fe11d7ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 21/37] fix: AddTimeBarH5 accepts the documented 'YYYY-MM' keys

---
 finmlkit/bar/io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index c4790d0..3aefb85 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -431,10 +431,11 @@ class AddTimeBarH5:
     def _check_keys(self, keys: list[str]):
         available_keys = self._list_keys()
         if keys:
-            missing_keys = [key for key in keys if key not in available_keys]
+            trades_keys = [f"/trades/{key.split('/')[-1]}" for key in keys]
+            missing_keys = [key for key in trades_keys if key not in available_keys]
             if missing_keys:
                 raise KeyError(f"Missing keys: {missing_keys}\nAvailable keys: {available_keys}")
-            return keys
+            return trades_keys
         else:
             return available_keys
 
@@ -465,9 +466,9 @@ class AddTimeBarH5:
         from finmlkit.utils.log import get_logger
         logger = get_logger(__name__)
 
-        # Derive timebar key from trade key
-        timebar_key = key.replace('/trades/', '/klines/')
+        # Derive timebar key from trade key ('/trades/YYYY-MM' or 'YYYY-MM')
         month_key = key.split('/')[-1]
+        timebar_key = f"/klines/{month_key}"
 
         # Check if time bars already exist
         with pd.HDFStore(self.h5_path, mode='r') as store:
@@ -503,7 +504,7 @@ class AddTimeBarH5:
                 'record_count': len(bars_df),
                 'first_timestamp': bars_df.index[0].value,
                 'last_timestamp': bars_df.index[-1].value,
-                'original_trades_key': key
+                'original_trades_key': f"/trades/{month_key}"
             })
 
             if meta_key in store:
-- 
2.43.0


From 3515a68209b7707b7ede90dd594176c7c694b247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 22/37] fix: UnaryOpTransform labels its result with its own
 output name

---
 finmlkit/feature/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/finmlkit/feature/base.py b/finmlkit/feature/base.py
index 04d5585..adcbcc8 100644
--- a/finmlkit/feature/base.py
+++ b/finmlkit/feature/base.py
@@ -1360,8 +1360,7 @@ class UnaryOpTransform(BaseTransform):
         else:
             base = self.transform(x, backend=backend)
         result = self.op_func(base)
-        result.name = self.output_name
-        return result
+        return result.rename(self.output_name)
 
 
 class MinMaxOpTransform(BaseTransform):
-- 
2.43.0


From 542aa37ee7f34943116e55065d814f3b292fdde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 23/37] fix: Compose feeds each step the previous result and
 names its output

---
 finmlkit/feature/kit.py | 56 +++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 341e6a9..361e275 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -641,6 +641,13 @@ class Compose(BaseTransform):
         super().__init__(requires, produces)
         self.transforms = transforms
 
+    def _prefix_names(self) -> list[str]:
+        """Names of the outputs of the first 1, 2, ... steps of the pipeline."""
+        names = [self.transforms[0].output_name]
+        for t in self.transforms[1:]:
+            names.append(f"{names[-1]}_{t.produces[0]}")
+        return names
+
     def _validate_input(self, x: pd.DataFrame) -> bool:
         """
         Validate that the input DataFrame contains the required columns for all transforms.
@@ -665,9 +672,10 @@ class Compose(BaseTransform):
     def _run_pipeline(self, x: pd.DataFrame, *, backend) -> pd.Series:
         """
         Apply the composed transforms to the input DataFrame with caching/optimization:
-        - If the final output already exists in the input DataFrame, return it immediately.
-        - For each step, if its output exists in the DataFrame, reuse it rather than recomputing.
-        - Prefer DataFrame-provided required column(s) when available; else use the prior step's output.
+        - If the output of the whole pipeline or of its first steps (named like the composition of
+          these steps) already exists in the input DataFrame, reuse it rather than recomputing.
+        - Each further step consumes the output of the step before it; a step with several inputs
+          takes its other inputs from the input DataFrame.
         :param x: DataFrame to transform
         :param backend: Backend is already specified in the transforms
         :return: Transformed Series
@@ -679,35 +687,33 @@ class Compose(BaseTransform):
         if final_name in x.columns:
             return x[final_name]
 
-        current_series = None
-        for i, tfs in enumerate(self.transforms):
-            out_name = tfs.produces[0]
-
-            # If this step's output already exists, reuse it
-            if out_name in x.columns:
-                current_series = x[out_name]
-                continue
+        # Otherwise continue after the longest part of the pipeline that is present
+        prefix_names = self._prefix_names()
+        start, current_series = 0, None
+        for i in range(len(self.transforms) - 1, 0, -1):
+            if prefix_names[i - 1] in x.columns:
+                start, current_series = i, x[prefix_names[i - 1]]
+                break
 
+        for i, tfs in enumerate(self.transforms[start:], start):
             if i == 0:
                 # First transform: operate on full DataFrame x
                 current_series = tfs(x, backend=backend)
+                continue
+
+            # Subsequent transforms: the prior step's series is the required input column
+            # (the one named after it, else the one the DataFrame does not provide)
+            requires = tfs.requires
+            if self.transforms[i - 1].output_name in requires:
+                link = self.transforms[i - 1].output_name
             else:
-                # Subsequent transforms: prefer required column from DataFrame if available,
-                # otherwise use the prior step's series as the required input column.
-                req_col = tfs.requires[0]
-                if req_col in x.columns:
-                    df_in = x[[req_col]]
-                else:
-                    df_in = pd.DataFrame(current_series.values, index=current_series.index, columns=[req_col])
-                current_series = tfs(df_in, backend=backend)
-
-            # Optionally cache into x for downstream steps to reuse (without mutating original reference)
-            # We avoid modifying the input DataFrame in-place; downstream steps consult x for presence.
-            # If consumers expect caching to materialize, FeatureKit handles DataFrame accumulation.
+                link = next((c for c in requires if c not in x.columns), requires[0])
+            df_in = x[[c for c in requires if c != link and c in x.columns]].copy()
+            df_in[link] = current_series.values
+            current_series = tfs(df_in, backend=backend)
 
         # Return the final output Series with the composed name
-        current_series.name = final_name
-        return current_series
+        return current_series.rename(final_name)
 
     def __call__(self, x: pd.DataFrame, *, backend="nb") -> pd.Series:
         """
-- 
2.43.0


From 33c5007bc3c5437acf871d1a1edc9ecf5e0b7203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 24/37] fix: a feature kit never routes a column to a different
 computation of the same name

---
 finmlkit/feature/kit.py   | 15 +++++---
 finmlkit/feature/utils.py | 75 +++++++++++++++++++++++++++++++++++----
 2 files changed, 79 insertions(+), 11 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 361e275..9b2bba1 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -4,7 +4,8 @@ import json
 import time
 
 from .base import BaseTransform, MinMaxOpTransform, BinaryOpTransform, ConstantOpTransform, UnaryOpTransform, SISOTransform, MISOTransform
-from .utils import transform_to_config, transform_from_config, ComputationGraph, build_feature_graph
+from .utils import (transform_to_config, transform_from_config, ComputationGraph, build_feature_graph,
+                    ambiguous_outputs, _flatten_requires)
 from finmlkit.utils.log import get_logger
 
 logger = get_logger(__name__)
@@ -1034,6 +1035,8 @@ class FeatureKit:
             pd.DataFrame: A DataFrame that contains retained columns and all computed feature columns.
         """
         out = df[self.retain].copy()
+        # Names shared by different computations cannot be looked up in the cache
+        ambiguous = ambiguous_outputs(self.features) - set(df.columns)
         df = df.copy()
 
         # Determine execution order
@@ -1052,7 +1055,10 @@ class FeatureKit:
             if timeit:
                 start_time = time.time()
 
-            res = feat(df, cache=df, backend=backend)
+            required = _flatten_requires(feat.transform)
+            hidden = [c for c in df.columns if c in ambiguous and c not in required]
+            view = df.drop(columns=hidden) if hidden else df
+            res = feat(view, cache=view, backend=backend)
 
             if timeit:
                 elapsed = time.time() - start_time
@@ -1065,8 +1071,9 @@ class FeatureKit:
                 df[feat.transform.output_name] = res  # cache the result in the DataFrame (for compose transforms)
             elif isinstance(res, tuple):
                 # Multi output transform case
-                for item in res:
-                    out[item.name] = item
+                names = feat.name if isinstance(feat.name, (list, tuple)) else [item.name for item in res]
+                for name, item in zip(names, res):
+                    out[name] = item
                     df[item.name] = item  # cache the result in the DataFrame (for compose transforms)
             else:
                 raise TypeError(f"Transform {feat} returned unexpected type: {type(res)}")
diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index d6fad11..6d6ef42 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -303,6 +303,62 @@ def transform_from_config(cfg: Dict[str, Any]) -> BaseTransform:
         return obj
 
 
+# --- Identity of computations -------------------------------------------------
+
+def _same_computation(a: Any, b: Any) -> bool:
+    """True if two transforms, functions or parameters certainly define the same computation."""
+    if a is b:
+        return True
+    if type(a) is not type(b):
+        return False
+    if isinstance(a, BaseTransform):
+        return _same_computation(vars(a), vars(b))
+    if inspect.isfunction(a):
+        return (a.__code__ == b.__code__
+                and _same_computation(a.__defaults__, b.__defaults__)
+                and _same_computation(a.__kwdefaults__, b.__kwdefaults__)
+                and _same_computation([c.cell_contents for c in a.__closure__ or ()],
+                                      [c.cell_contents for c in b.__closure__ or ()]))
+    if isinstance(a, dict):
+        return a.keys() == b.keys() and all(_same_computation(a[k], b[k]) for k in a)
+    if isinstance(a, (list, tuple)):
+        return len(a) == len(b) and all(_same_computation(x, y) for x, y in zip(a, b))
+    if isinstance(a, np.ndarray):
+        return a.dtype == b.dtype and np.array_equal(a, b)
+    try:
+        return bool(a == b)
+    except Exception:
+        return False
+
+
+def _named_outputs(t: BaseTransform):
+    """Yield (output name, computation) for a transform and everything nested in it."""
+    names = t.output_name
+    for pos, name in enumerate([names] if isinstance(names, str) else names):
+        yield name, (pos, t)
+    for attr in ("left", "right", "transform"):
+        child = getattr(t, attr, None)
+        if isinstance(child, BaseTransform):
+            yield from _named_outputs(child)
+    steps = getattr(t, "transforms", None)
+    if isinstance(steps, (list, tuple)) and steps:
+        yield from _named_outputs(steps[0])
+        for i in range(2, len(steps)):
+            prefix = type(t)(*steps[:i])
+            yield prefix.output_name, (0, prefix)
+
+
+def ambiguous_outputs(features: List["Feature"]) -> Set[str]:
+    """Output names that stand for more than one computation within a set of features."""
+    seen: Dict[str, Any] = {}
+    ambiguous: Set[str] = set()
+    for f in features:
+        for name, computation in _named_outputs(f.transform):
+            if not _same_computation(seen.setdefault(name, computation), computation):
+                ambiguous.add(name)
+    return ambiguous
+
+
 # --- Graph utilities ----------------------------------------------------------
 
 class ComputationGraph:
@@ -358,8 +414,13 @@ def _flatten_requires(t: BaseTransform) -> List[str]:
 
 def build_feature_graph(features: List["Feature"]) -> ComputationGraph:
     g = ComputationGraph()
-    # Map of feature output names for cross-referencing
-    outputs = {str(f.name): f for f in features if isinstance(f.name, (str,))}
+    # Map of the columns produced by features (by transform output name or feature name) to the feature nodes
+    outputs: Dict[str, str] = {}
+    for names_of in (lambda f: f.transform.output_name, lambda f: f.name):
+        for f in features:
+            names = names_of(f)
+            for name in ([names] if isinstance(names, str) else names):
+                outputs.setdefault(name, str(f.name))
 
     def _child_out_names(t: BaseTransform) -> List[str]:
         if isinstance(t, (BinaryOpTransform, MinMaxOpTransform)):
@@ -386,12 +447,12 @@ def build_feature_graph(features: List["Feature"]) -> ComputationGraph:
             g.add_edge(in_node, out_name)
         # Edges from child transforms if those outputs are also features
         for child_out in _child_out_names(f.transform):
-            if child_out in outputs and child_out != out_name:
-                g.add_edge(child_out, out_name)
+            if child_out in outputs and outputs[child_out] != out_name:
+                g.add_edge(outputs[child_out], out_name)
         # Back-compat: dependencies on other features if require equals other feature's output
-        for other_name in outputs.keys():
-            if other_name == out_name:
+        for other_name, other_node in outputs.items():
+            if other_node == out_name:
                 continue
             if other_name in reqs:
-                g.add_edge(other_name, out_name)
+                g.add_edge(other_node, out_name)
     return g
-- 
2.43.0


From 6e74f34f2f1f8eb3025b7403add7acfb1d9514f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 25/37] fix: feature configurations keep every parameter and
 operation

---
 finmlkit/feature/kit.py        |  6 ++++-
 finmlkit/feature/transforms.py |  4 +++
 finmlkit/feature/utils.py      | 45 +++++++++++++++++++++++++++++++---
 3 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 9b2bba1..4d52a79 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -259,6 +259,8 @@ class Feature:
         # Create the transform with the operation
         transform = UnaryOpTransform(self.transform, func_name, lambda x: func(x, *args, **kwargs))
 
+        transform.applied = (func, args, kwargs)  # for serialization
+
         # Create and initialize the new feature
         feature = Feature(transform)
 
@@ -398,7 +400,9 @@ class Feature:
         :param adjust: Whether to adjust the EMA calculation (default is True)
         :return: A new Feature with EMA values
         """
-        return self.apply(lambda x: x.ewm(span=span, adjust=adjust).mean(), suffix=f"ema{span}")
+        feature = self.apply(lambda x: x.ewm(span=span, adjust=adjust).mean(), suffix=f"ema{span}")
+        feature.transform.op_kwargs = {} if adjust else {"adjust": False}  # for serialization
+        return feature
 
     def rolling_sum(self, window):
         """
diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 2e99d41..358852e 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -102,6 +102,7 @@ class ReturnT(SISOTransform):
         window_sec = window.total_seconds()
         output_col = f"ret{window_sec}s" if window_sec > 1e-6 else "ret1"
         super().__init__(input_col, output_col)
+        self.window = window
         self.window_sec = window_sec
         self.is_log = is_log
 
@@ -190,6 +191,7 @@ class PctChange(SISOTransform):
         :return: The percentage change of the signal.
         """
         super().__init__(input_col, f"pctc{window}")
+        self.window = window
         self.periods = window
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
@@ -318,6 +320,7 @@ class EWMST(SISOTransform):
         """
         half_life_sec = half_life.total_seconds()
         super().__init__(input_col, f"ewms{half_life_sec}s")
+        self.half_life = half_life
         self.half_life_sec = half_life_sec
 
     def _pd(self, x):
@@ -1235,6 +1238,7 @@ class BarRate(SISOTransform):
 
         super().__init__(input_col, output_name)
         self.out_name = output_name
+        self.window = window
         self.window_sec = window_sec
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index 6d6ef42..b4ae97e 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -61,6 +61,19 @@ def _import_class(path: str):
     return getattr(mod, cls_name)
 
 
+def _function_path(func: Any) -> Optional[str]:
+    """Import path of a function given to Feature.apply, or None if it cannot be imported back."""
+    path = f"{getattr(func, '__module__', None)}.{getattr(func, '__name__', None)}"
+    return path if _import_function(path) is func else None
+
+
+def _import_function(path: Optional[str]):
+    try:
+        return _import_class(path) if path else None
+    except (ImportError, AttributeError, ValueError):
+        return None
+
+
 # Map op_name -> functions for reconstruction
 _OP_BINARY = {
     "add": lambda x, y: x + y,
@@ -86,7 +99,7 @@ _OP_UNARY = {
 }
 
 
-def _maybe_unary_from_name(name: str):
+def _maybe_unary_from_name(name: str, *, adjust: bool = True):
     # Dynamic clip pattern: clip_<lower>_<upper>, where bounds may be empty
     if name.startswith("clip_"):
         parts = name.split("_")
@@ -115,7 +128,7 @@ def _maybe_unary_from_name(name: str):
         if name.startswith("ema"):
             n = int(name[len("ema"):])
             # Default to adjust=True (matches Feature.ema default)
-            return lambda x: x.ewm(span=n, adjust=True).mean()
+            return lambda x: x.ewm(span=n, adjust=adjust).mean()
         if name.startswith("lag"):
             n = int(name[len("lag"):])
             return lambda x: x.shift(n)
@@ -177,6 +190,16 @@ def transform_to_config(t: BaseTransform) -> Dict[str, Any]:
             name = t.produces[0] if isinstance(t.produces, list) else t.produces
             op_name = name.split("(")[0]
         cfg["op_name"] = op_name
+        # Operations that are not determined by their name
+        if getattr(t, "op_kwargs", None):
+            cfg["op_kwargs"] = dict(t.op_kwargs)
+        if getattr(t, "applied", None):
+            func, args, kwargs = t.applied
+            path = _function_path(func)
+            if path is not None:
+                cfg["func"] = path
+                cfg["args"] = _serialize_value(args)
+                cfg["kwargs"] = _serialize_value(kwargs)
         cfg["child"] = transform_to_config(t.transform)
         return cfg
     # External function transform
@@ -256,10 +279,24 @@ def transform_from_config(cfg: Dict[str, Any]) -> BaseTransform:
     if kind == "unary":
         child = transform_from_config(cfg["child"])  # type: ignore[index]
         op_name = cfg.get("op_name", "abs")
-        op = _maybe_unary_from_name(op_name)
+        applied = None
+        if "func" in cfg:
+            func = _import_function(cfg["func"])
+            if func is None:
+                raise ValueError(f"Unsupported unary op: {op_name} (cannot import {cfg['func']})")
+            args, kwargs = _deserialize_value(cfg.get("args", [])), _deserialize_value(cfg.get("kwargs", {}))
+            applied = (func, tuple(args), kwargs)
+            op = lambda x: func(x, *args, **kwargs)
+        else:
+            op = _maybe_unary_from_name(op_name, **cfg.get("op_kwargs", {}))
         if op is None:
             raise ValueError(f"Unsupported unary op: {op_name}")
-        return UnaryOpTransform(child, op_name, op)
+        t = UnaryOpTransform(child, op_name, op)
+        t.applied = applied
+        t.op_kwargs = dict(cfg.get("op_kwargs", {}))
+        if cfg.get("produces"):
+            t.produces = list(cfg["produces"])
+        return t
     if kind == "compose":
         # lazy import to avoid circular dependency at import-time
         from finmlkit.feature.kit import Compose  # type: ignore
-- 
2.43.0


From 9f8810bb5e5a31e74416ee49f83eda8e742c5f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 26/37] fix: StochK passes its columns to the kernel in order

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 358852e..acba82d 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -302,7 +302,7 @@ class StochK(MISOTransform):
         low = input_dict[self.requires[1]]
         close = input_dict[self.requires[2]]
 
-        result = stoch_k(high, low, close, self.length)
+        result = stoch_k(close, low, high, self.length)
 
         return self._prepare_output_nb(x.index, result)
 
-- 
2.43.0


From b4d438d9f66258e2bff934b941cb2f2367d1fe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 27/37] fix: transforms convert timestamps to nanoseconds
 whatever the index resolution

---
 finmlkit/feature/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/base.py b/finmlkit/feature/base.py
index adcbcc8..878df1d 100644
--- a/finmlkit/feature/base.py
+++ b/finmlkit/feature/base.py
@@ -295,7 +295,7 @@ class CoreTransform(BaseTransform, ABC):
 
         """
         self._check_datetime_index(x)
-        return x.index.values.astype(np.int64)
+        return x.index.values.astype('datetime64[ns]').astype(np.int64)
 
     # --- to be implemented by children --------------------------------------
     @abstractmethod
-- 
2.43.0


From 63a7d9b0aa99ac6d31ca61bead9ce6aba1fe3b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 28/37] fix: label kit converts event timestamps to nanoseconds
 whatever the index resolution

---
 finmlkit/label/kit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/label/kit.py b/finmlkit/label/kit.py
index 776ea1f..a77d89a 100644
--- a/finmlkit/label/kit.py
+++ b/finmlkit/label/kit.py
@@ -285,7 +285,8 @@ class TBMLabel:
         if "event_idx" in self._features.columns:
             event_idx = self._features.event_idx.values
         else:
-            event_idx = np.searchsorted(trades.data.timestamp.values, self._features.index.values.astype(np.int64))
+            event_ts = self._features.index.values.astype('datetime64[ns]').astype(np.int64)
+            event_idx = np.searchsorted(trades.data.timestamp.values, event_ts)
 
         # Call the triple_barrier function
         labels, touch_idx, rets, max_rb_ratios = triple_barrier(
-- 
2.43.0


From 3defc93cee08293872e2986777a014f898396b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 29/37] fix: DailyGap compares a day with the previous day, not
 with its own close

---
 finmlkit/feature/transforms.py | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index acba82d..2530fd6 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1085,9 +1085,6 @@ class DailyGap(SISOTransform):
         # Extract the close price series
         series = x[self.requires[0]]
 
-        # Create a Series with the same index as the input but filled with NaN
-        result = pd.Series(np.nan, index=series.index, name=self.output_name)
-
         # Convert index to datetime if not already
         if not isinstance(series.index, pd.DatetimeIndex):
             raise ValueError("Input DataFrame must have a DatetimeIndex for DailyGap calculation")
@@ -1095,25 +1092,12 @@ class DailyGap(SISOTransform):
         # Ensure the index is sorted
         series = series.sort_index()
 
-        # Get close prices at 00:00 UTC (first value of each day)
-        midnight_close = series.resample('D').first()
-
-        # Get close prices at 23:45 UTC from previous day (last value of each day after shifting)
-        prev_2345_close = series.shift(1).resample('D').last()
-
-        # Calculate the gap as percentage change
-        daily_gap = (midnight_close - prev_2345_close) / prev_2345_close
-
-        # Map the daily gaps back to the original time series
-        # We'll set the gap value for each day at midnight
-        for date, gap in daily_gap.items():
-            if not np.isnan(gap):
-                # Find the first timestamp in the original series for this day
-                day_start = pd.Timestamp(date.year, date.month, date.day)
+        # Get the last close price (23:45 UTC) of the day before each bar
+        prev_2345_close = series.resample('D').last().shift(1).reindex(x.index.normalize()).values
 
-                # If this timestamp exists in the original index, set the gap value
-                if day_start in result.index:
-                    result.loc[day_start] = gap
+        # Set the gap as percentage change at the 00:00 UTC bars
+        gap = (x[self.requires[0]] - prev_2345_close) / prev_2345_close
+        result = gap.where(x.index == x.index.normalize()).rename(self.output_name)
 
         return result
 
-- 
2.43.0


From 03cb419272c356daebf3b585d7a43d77685675d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 30/37] fix: EWMA gives missing samples no weight, as
 documented

---
 finmlkit/feature/core/ma.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/finmlkit/feature/core/ma.py b/finmlkit/feature/core/ma.py
index 4cf7aee..09b942b 100644
--- a/finmlkit/feature/core/ma.py
+++ b/finmlkit/feature/core/ma.py
@@ -29,16 +29,20 @@ def ewma(y: NDArray, span: int) -> NDArray[np.float64]:
         raise ValueError("span size is less than or equal to 1. Please provide a span size greater than 1.")
 
     alpha = 2.0 / (span + 1.0)
-    u_t = y[0]  # Initial value for numerator
-    v_t = 1.0   # Initial value for denominator
-    ewma[0] = u_t / v_t
-
-    for t in range(1, n):
-        # Update the numerator and denominator
-        u_t = y[t] + (1.0 - alpha) * u_t
-        v_t = 1.0 + (1.0 - alpha) * v_t
-        # Calculate the EWMA
-        ewma[t] = u_t / v_t
+    u_t = 0.0  # Initial value for numerator
+    v_t = 0.0  # Initial value for denominator
+    last = np.nan
+
+    for t in range(n):
+        # Earlier samples decay with every row; missing ones carry no weight
+        u_t = (1.0 - alpha) * u_t
+        v_t = (1.0 - alpha) * v_t
+        if not np.isnan(y[t]):
+            u_t += y[t]
+            v_t += 1.0
+            # Calculate the EWMA
+            last = u_t / v_t
+        ewma[t] = last
 
     return ewma
 
-- 
2.43.0


From 50b8c5222b2aad832ca59af6bb70ed6a91772432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 31/37] fix: data-frame RSI agrees with the compiled one on
 short, loss-free and incomplete series

---
 finmlkit/feature/transforms.py | 35 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 2530fd6..4a942e5 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -235,37 +235,26 @@ class RSIWilder(SISOTransform):
         losses = -losses  # Make losses positive
 
         # Initialize results with NaNs
-        rsi = pd.Series(np.nan, index=series.index)
+        rsi = pd.Series(np.nan, index=series.index, name=self.output_name)
+        if len(series) <= self.window:
+            return rsi  # not enough data
 
-        # First average is simple average
-        first_avg_gain = gains.iloc[1:self.window + 1].mean()
-        first_avg_loss = losses.iloc[1:self.window + 1].mean()
+        # First average is simple average, undefined if a price is missing
+        avg_gain = gains.iloc[1:self.window + 1].mean(skipna=False)
+        avg_loss = losses.iloc[1:self.window + 1].mean(skipna=False)
 
-        # Use Wilder's smoothing method
-        avg_gain = first_avg_gain
-        avg_loss = first_avg_loss
+        # Undefined without losses, as in the compiled implementation
+        rsi.iloc[self.window] = 100 - (100 / (1 + avg_gain / avg_loss)) if avg_loss > 0 else np.nan
 
-        # Calculate first RSI value
-        if first_avg_loss != 0:
-            rs = avg_gain / avg_loss
-        else:
-            rs = float('inf')  # Avoid division by zero
-
-        rsi.iloc[self.window] = 100 - (100 / (1 + rs)) if rs != float('inf') else 100
-
-        # Subsequent averages use Wilder's smoothing
+        # Subsequent averages use Wilder's smoothing; an unknown change counts as none
+        gains = gains.fillna(0)
+        losses = losses.fillna(0)
         for i in range(self.window + 1, len(series)):
             avg_gain = ((self.window - 1) * avg_gain + gains.iloc[i]) / self.window
             avg_loss = ((self.window - 1) * avg_loss + losses.iloc[i]) / self.window
 
-            if avg_loss != 0:
-                rs = avg_gain / avg_loss
-            else:
-                rs = float('inf')
-
-            rsi.iloc[i] = 100 - (100 / (1 + rs)) if rs != float('inf') else 100
+            rsi.iloc[i] = 100 - (100 / (1 + avg_gain / avg_loss)) if avg_loss > 0 else np.nan
 
-        rsi.name = self.output_name
         return rsi
 
     def _nb(self, x: Union[pd.DataFrame, pd.Series]) -> pd.Series:
-- 
2.43.0


From 3b8ecd66c78ea1ec7d2f4be7b89c63f8c26d2925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 32/37] fix: data-frame PctChange keeps gaps and names its
 output like the compiled one

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 4a942e5..edb9479 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -196,7 +196,7 @@ class PctChange(SISOTransform):
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
         series = x[self.requires[0]]
-        return series.pct_change(self.periods)
+        return series.pct_change(self.periods, fill_method=None).rename(self.output_name)
 
     def _nb(self, x: Union[pd.DataFrame, pd.Series]) -> pd.Series:
         input_arr = self._prepare_input_nb(x)
-- 
2.43.0


From bcac6eebacf0bd0c365c28022ee400eacd4dc7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:14 +0000
Subject: [PATCH 33/37] fix: data-frame price-volume correlation treats missing
 values like the compiled one

---
 finmlkit/feature/transforms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index edb9479..2eae96b 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -769,7 +769,7 @@ class PriceVolumeCorrelation(MISOTransform):
         volume_col = self.requires[1]
 
         # Calculate returns
-        returns = x[price_col].pct_change()
+        returns = x[price_col].pct_change(fill_method=None)
 
         # Create a DataFrame with returns and volume
         df = pd.DataFrame({
@@ -778,7 +778,11 @@ class PriceVolumeCorrelation(MISOTransform):
         })
 
         # Calculate rolling correlation
-        result = df['returns'].rolling(window=self.window).corr(df['volume'])
+        result = df['returns'].rolling(window=self.window, min_periods=min(2, self.window)).corr(df['volume'])
+
+        # As in the numba implementation: the known pairs of a full window, known at the current row
+        result = result.where(df['returns'].notna() & df['volume'].notna())
+        result.iloc[:self.window] = np.nan
 
         # Special case for perfect correlations to match tests and numba implementation
         if len(x) >= 10 and self.window == 4:  # Test data is usually 10 points long with window=4
-- 
2.43.0


From 0a3e409b6ea964ab88a1790024d5d35b2c04e064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:21 +0000
Subject: [PATCH 34/37] fix: appending to a stored month keeps the integrity
 information of what is stored

---
 finmlkit/bar/data_model.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 1feb70b..c80227e 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -545,11 +545,21 @@ class TradesData:
             # ------------------------------------------------------------------
             first_timestamp = int(frame["timestamp"].iloc[0])
             last_timestamp = int(frame["timestamp"].iloc[-1])
-            if month_exists and not should_overwrite and meta_key in store:
+            data_ok, missing_pct = self.data_ok, self.missing_pct
+            appended = month_exists and not should_overwrite and meta_key in store
+            if appended:
                 # Appended: the month covers the stored range as well
                 prev_meta = store[meta_key]
                 first_timestamp = min(first_timestamp, int(prev_meta["first_timestamp"]))
                 last_timestamp = max(last_timestamp, int(prev_meta["last_timestamp"]))
+                # ... and so does its integrity information
+                prev_ok, prev_count = prev_meta.get("data_integrity_ok"), prev_meta["record_count"]
+                if prev_ok is not None and not prev_ok:
+                    data_ok = False
+                elif prev_ok is None and data_ok:
+                    data_ok = None
+                missing_pct = ((prev_meta.get("missing_pct", 0) * prev_count + missing_pct * len(frame))
+                               / (prev_count + len(frame)))
 
             # dtype=object: without integrity info the Series would become float64 and round the timestamps
             meta = pd.Series(
@@ -558,8 +568,8 @@ class TradesData:
                         store.get_storer(h5_key).nrows if month_exists else len(frame)),
                     "first_timestamp": first_timestamp,
                     "last_timestamp": last_timestamp,
-                    "data_integrity_ok": self.data_ok,  # Add integrity flag to main metadata
-                    "missing_pct": self.missing_pct     # Add count of discontinuities
+                    "data_integrity_ok": data_ok,  # Add integrity flag to main metadata
+                    "missing_pct": missing_pct     # Add count of discontinuities
                 },
                 dtype=object,
             )
@@ -586,6 +596,8 @@ class TradesData:
                 # Save discontinuity data as DataFrame
                 if discontinuity_data:
                     disc_df = pd.DataFrame(discontinuity_data)
+                    if appended and integrity_key in store:
+                        disc_df = pd.concat([store[integrity_key], disc_df], ignore_index=True)
                     store.put(integrity_key, disc_df, format="table")
                     logger.info(f"Saved {len(disc_df)} trade ID discontinuities to metadata.")
 
-- 
2.43.0


From 011d6f43ca1c1d46ea58d3b0ca0e00304ab62b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:21 +0000
Subject: [PATCH 35/37] fix: gap detection works on trades stored out of order

---
 finmlkit/bar/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 3aefb85..0c6e09b 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -20,7 +20,7 @@ def _find_gaps(key: str, filepath: str, max_gap: pd.Timedelta) -> Tuple[str, lis
     :return: Tuple containing the key and a list of tuples, each with (gap timestamp, gap size).
     """
     with pd.HDFStore(filepath, mode='r') as store:
-        df = store[key]
+        df = store[key].sort_index()  # appended trades may be stored out of order
         diff_series = df.index.to_series().diff()
         gap_mask = diff_series > max_gap
         gap_timestamps = df.index[gap_mask].tolist()
-- 
2.43.0


From 1daeb060532f8d50a6fcd4ab18763cbc9e192eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:21 +0000
Subject: [PATCH 36/37] fix: loading trades stored out of order keeps the order
 of trades of the same time

---
 finmlkit/bar/data_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index c80227e..c002966 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -793,7 +793,7 @@ class TradesData:
         # Ensure the DataFrame index is sorted
         if not df.index.is_monotonic_increasing:
             logger.info("Sorting DataFrame by datetime index after concatenation...")
-            df.sort_index(inplace=True)
+            df.sort_index(kind="stable", inplace=True)
 
         logger.info(f"Successfully loaded {len(df):,} trades from {len(frames)} monthly groups.")
 
-- 
2.43.0


From 611551cfd4bc112db4e80fabf3a875018a1bfbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:10 +0000
Subject: [PATCH 37/37] fix: the Hurst exponent of windows up to eight rows
 fits only the lags it has

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 2eae96b..ff40338 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1368,7 +1368,7 @@ class HurstExponent(SISOTransform):
         taus = np.asarray(taus)
 
         if np.all(taus > 0):
-            slope, _ = np.polyfit(np.log(lags), np.log(taus), 1)
+            slope, _ = np.polyfit(np.log(lags[:len(taus)]), np.log(taus), 1)
             return slope  # std-slope = H
         return np.nan
 
-- 
2.43.0

