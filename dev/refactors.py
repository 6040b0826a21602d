"""behaviour-preserving edits, used to look for false alarms: id -> (property, file, [(old, new)...])"""
B, LG, U = "finmlkit/bar/base.py", "finmlkit/bar/logic.py", "finmlkit/bar/utils.py"
R = {}
R["tick_while"] = ("C02", LG, [("""    for i in range(1, n):
        cum_ticks += 1
        if cum_ticks >= threshold:
            tick_bar_indices.append(i)
            cum_ticks = 0  # Reset the counter after reaching the threshold
""", """    i = 1
    while i < n:
        cum_ticks = cum_ticks + 1
        if not cum_ticks < threshold:
            tick_bar_indices.append(i)
            cum_ticks = 0
        i += 1
""")])
R["tick_down"] = ("C02", LG, [("    cum_ticks = 1  # Start counting from the first tick\n", "    remaining = threshold - 1\n"), ("""        cum_ticks += 1
        if cum_ticks >= threshold:
            tick_bar_indices.append(i)
            cum_ticks = 0  # Reset the counter after reaching the threshold
""", """        remaining -= 1
        if remaining <= 0:
            tick_bar_indices.append(i)
            remaining = threshold
""")])
R["vol_helper"] = ("C02", LG, [("""@njit(nogil=True)
def _volume_bar_indexer(""", """@njit(nogil=True)
def _target_hit(total, target):
    return total >= target


@njit(nogil=True)
def _volume_bar_indexer("""), ("        if cum_volume >= threshold:", "        if _target_hit(cum_volume, threshold):")])
R["vol_enumerate"] = ("C02", LG, [("""    cum_volume = volumes[0]  # Start counting from the first tick
    for i in range(1, n):
        cum_volume += volumes[i]
        if cum_volume >= threshold:
            volume_bar_indices.append(i)
            cum_volume = 0.  # No carry-over volume, if target is hit, reset the counter
""", """    cum_volume = volumes[0]
    for k in range(n - 1):
        vol = volumes[k + 1]
        total = cum_volume + vol
        hit = total >= threshold
        if hit:
            volume_bar_indices.append(k + 1)
        cum_volume = 0. if hit else total
""")])
R["dollar_factor"] = ("C02", LG, [("""        cum_dollar += prices[i] * volumes[i]
        if cum_dollar >= threshold:
            dollar_bar_indices.append(i)
            cum_dollar = cum_dollar - threshold
""", """        value = volumes[i] * prices[i]
        cum_dollar = value + cum_dollar
        if threshold <= cum_dollar:
            cum_dollar -= threshold
            dollar_bar_indices.append(i)
""")])
R["time_clock"] = ("C01", LG, [("""    last_ts = -(-timestamps[-1] // bar_interval_ns) * bar_interval_ns
""", """    last_ts = (timestamps[-1] + bar_interval_ns - 1) // bar_interval_ns * bar_interval_ns
"""), ("""    bar_close_indices = (np.searchsorted(timestamps, bar_clock, side='right') - 1).astype(np.int64)
""", """    n_closed = np.searchsorted(timestamps, bar_clock, side='right')
    bar_close_indices = n_closed.astype(np.int64) - 1
""")])
R["time_mod"] = ("C01", LG, [("    bar_start_ts = timestamps[0] // bar_interval_ns * bar_interval_ns\n", "    first = timestamps[0]\n    bar_start_ts = first - first % bar_interval_ns\n")])
R["cusum_for"] = ("C03", LG, [("""    i = first_non_nan_idx + 1
    while i < n:
        ret =""", """    for i in range(first_non_nan_idx + 1, n):
        ret ="""), ("            i += 1\n            continue\n", "            continue\n"), ("            s_neg = 0.0\n        i += 1\n", "            s_neg = 0.0\n")])
R["cusum_nested"] = ("C03", LG, [("""        if i + 1 < n and timestamps[i] == timestamps[i + 1]:
            i += 1
            continue

        lam = max(float(sigma_mult * sigma[i]), sigma_floor)
        # open a new bar if either side hits the threshold
        if s_pos >= lam:
            cusum_bar_indices.append(i)
            s_pos = 0.0
        elif s_neg <= -lam:
            cusum_bar_indices.append(i)
            s_neg = 0.0
        i += 1
""", """        in_block = i + 1 < n and timestamps[i] == timestamps[i + 1]
        if not in_block:
            lam = max(float(sigma_mult * sigma[i]), sigma_floor)
            up = s_pos >= lam
            down = -s_neg >= lam
            if up or down:
                cusum_bar_indices.append(i)
            if up:
                s_pos = 0.0
            elif down:
                s_neg = 0.0
        i += 1
""")])
R["ohlcv_minmax"] = ("C04", B, [("""            if price > high_price:
                high_price = price
            if price < low_price:
                low_price = price
""", """            high_price = max(high_price, price)
            low_price = min(low_price, price)
""")])
R["ohlcv_slice"] = ("C04", B, [("""            # Store trade size for median calculation
            trade_sizes[trade_idx] = volume
            trade_idx += 1

            if price >""", """            if price >"""), ("""        trade_sizes = np.zeros(trade_count, dtype=np.float64)
        trade_idx = 0
""", """        trade_sizes = volumes[start:end + 1]
""")])
R["ohlcv_else"] = ("C04", B, [("""        high_price = prices[start]
        low_price = prices[start]
        total_volume = 0.0
        total_dollar = 0.0
""", """        first_price = prices[start]
        high_price = low_price = first_price
        total_volume = volumes[start]
        total_dollar = first_price * total_volume
"""), ("""        trade_idx = 0

        # Iterate over trades in the current bar, inclusive for the last trade (bar close)
        for j in range(start, end + 1):
""", """        trade_sizes[0] = volumes[start]
        trade_idx = 1

        # Iterate over trades in the current bar, inclusive for the last trade (bar close)
        for j in range(start + 1, end + 1):
""")])
R["dir_helper"] = ("C05", B, [("""                cum_ticks_max[i] = current_cum_ticks
                cum_ticks_min[i] = current_cum_ticks
                cum_volumes_max[i] = current_cum_volumes
                cum_volumes_min[i] = current_cum_volumes
                cum_dollars_max[i] = current_cum_dollars
                cum_dollars_min[i] = current_cum_dollars
                continue
            cum_ticks_max[i] = max(cum_ticks_max[i], current_cum_ticks)
            cum_ticks_min[i] = min(cum_ticks_min[i], current_cum_ticks)
            cum_volumes_max[i] = max(cum_volumes_max[i], current_cum_volumes)
            cum_volumes_min[i] = min(cum_volumes_min[i], current_cum_volumes)
            cum_dollars_max[i] = max(cum_dollars_max[i], current_cum_dollars)
            cum_dollars_min[i] = min(cum_dollars_min[i], current_cum_dollars)
""", """                cum_ticks_max[i] = cum_ticks_min[i] = current_cum_ticks
                cum_volumes_max[i] = cum_volumes_min[i] = current_cum_volumes
                cum_dollars_max[i] = cum_dollars_min[i] = current_cum_dollars
            else:
                cum_ticks_max[i] = max(cum_ticks_max[i], current_cum_ticks)
                cum_ticks_min[i] = min(cum_ticks_min[i], current_cum_ticks)
                cum_volumes_max[i] = max(cum_volumes_max[i], current_cum_volumes)
                cum_volumes_min[i] = min(cum_volumes_min[i], current_cum_volumes)
                cum_dollars_max[i] = max(cum_dollars_max[i], current_cum_dollars)
                cum_dollars_min[i] = min(cum_dollars_min[i], current_cum_dollars)
""")])
R["dir_first_flag"] = ("C05", B, [("        current_tics_buy = 0\n", "        current_tics_buy = 0\n        seen = False\n"), ("            if current_tics_buy + current_tics_sell == 1:\n", "            if not seen:\n                seen = True\n")])
R["dir_dollar"] = ("C05", B, [("            current_tick_sign = trade_sides[j]\n", "            current_tick_sign = trade_sides[j]\n            dollars = prices[j] * volumes[j]\n"),
                              ("                current_dollars_buy += prices[j] * volumes[j]\n", "                current_dollars_buy += dollars\n"),
                              ("                current_cum_dollars -= prices[j] * volumes[j]\n", "                current_cum_dollars -= dollars\n")])
R["size_loop"] = ("C06", B, [("""        block_volume = 0.0
        for amount in amounts_bar:
            if amount > thr:
                block_volume += amount
        pct_block[i] = block_volume / total_volume
""", """        block_volume = 0.0
        for k in range(start, end + 1):
            block_volume += amounts[k] if amounts[k] > thr else 0.0
        pct_block[i] = block_volume / total_volume
""")])
R["size_mean"] = ("C06", B, [("np.log1p(np.mean(amounts_bar) / thr)", "np.log1p(amounts_bar.mean() / thr)"), ("        if start > end: continue\n\n        if theta[i] == 0.0: continue\n", "        if start > end or theta[i] == 0.0:\n            continue\n")])
R["fp_sides"] = ("C08", B, [("""            # Cumulate the volumes and ticks
            if 0 <= price_level_idx < n_levels:
                if tick_direction == 1:
                    buy_volumes_i[price_level_idx] += amount
                    buy_ticks_i[price_level_idx] += 1
                elif tick_direction == -1:
                    sell_volumes_i[price_level_idx] += amount
                    sell_ticks_i[price_level_idx] += 1
            else:
                raise ValueError("Something went wrong! Invalid price level index!")
""", """            # Cumulate the volumes and ticks
            if price_level_idx < 0 or price_level_idx >= n_levels:
                raise ValueError("Something went wrong! Invalid price level index!")
            if tick_direction == 1:
                buy_volumes_i[price_level_idx] += amount
                buy_ticks_i[price_level_idx] += 1
            if tick_direction == -1:
                sell_volumes_i[price_level_idx] += amount
                sell_ticks_i[price_level_idx] += 1
""")])
R["fp_run"] = ("C08", B, [("""        sign = 1 if buy_imbalances[i] else (-1 if sell_imbalances[i] else 0)

        if sign != 0 and sign == run_sign:
            run += 1
        elif sign != 0:  # start new run
            run = 1
            run_sign = sign
        else:  # level with no imbalance
            run = 0
            run_sign = 0
""", """        sign = 0
        if buy_imbalances[i]:
            sign = 1
        elif sell_imbalances[i]:
            sign = -1

        if sign == 0:
            run = 0
        elif sign == run_sign:
            run += 1
        else:
            run = 1
        run_sign = sign
""")])
R["fp_loopimb"] = ("C08", B, [("""        sell_imbalances[:-1] = sell_volumes[:-1] > (buy_volumes[1:] * imbalance_multiplier)
        buy_imbalances[1:] = buy_volumes[1:] > (sell_volumes[:-1] * imbalance_multiplier)
""", """        for lvl in range(n_levels - 1):
            sell_imbalances[lvl] = sell_volumes[lvl] > buy_volumes[lvl + 1] * imbalance_multiplier
            buy_imbalances[lvl + 1] = buy_volumes[lvl + 1] > sell_volumes[lvl] * imbalance_multiplier
""")])
R["fp_gini"] = ("C08", B, [("""        volume_proportions = total_volumes / sum_total_volume
        vp_gini = 1.0 - np.sum(volume_proportions ** 2)
""", """        proportions = total_volumes / sum_total_volume
        vp_gini = 1.0 - np.sum(proportions * proportions)
""")])
T, W, S, F = "finmlkit/label/tbm.py", "finmlkit/label/weights.py", "finmlkit/sampling/filters.py", "finmlkit/feature/core/"
R["tbm_one_if"] = ("C12", T, [("""            if ret >= upper_barrier:
                touch_idx = j
                barrier_hit = True
                break
            if ret <= lower_barrier:
                touch_idx = j
""", """            if ret >= upper_barrier or ret <= lower_barrier:
                touch_idx = j
""")])
R["tbm_helper"] = ("C12", T, [("            max_rb_ratios[i_event] = min(max_rbr, 1.) # Ensure the weight is capped at 1.0\n", "            capped = min(max_rbr, 1.)\n            max_rb_ratios[i_event] = capped\n"),
   ("""            sign = np.sign(ret)
            labels[i_event] = sign if sign != 0 else 1
""", """            if ret < 0.0:
                labels[i_event] = -1
            else:
                labels[i_event] = 1
""")])
R["tbm_while"] = ("C12", T, [("""        for j in range(t0_idx + 1, t1_idx + 1):

            dur_ns = timestamps[j] - t0  # Duration in nanoseconds
            if dur_ns < min_close_time_ns:
                # Cannot close until the minimum open time is reached
                continue
""", """        j = t0_idx
        while j < t1_idx:
            j += 1
            if timestamps[j] - t0 < min_close_time_ns:
                continue
""")])
R["w_conc_loop"] = ("C13", W, [("        concurrency[start_idx:end_idx+1] += 1  # return overlaps within [t-1, t]\n", "        for j in range(start_idx, end_idx + 1):\n            concurrency[j] += 1\n")])
R["w_mean_loop"] = ("C13", W, [("        weights[i] = np.mean(1.0 / concurrency_slice)\n", "        acc = 0.0\n        for c in concurrency_slice:\n            acc += 1.0 / c\n        weights[i] = acc / len(concurrency_slice)\n")])
R["w_ret_order"] = ("C14", W, [("            if concurrency[j] > 0 and not np.isnan(log_rets[j]):\n                weight += log_rets[j] / concurrency[j]\n", "            if np.isnan(log_rets[j]) or concurrency[j] <= 0:\n                continue\n            weight = weight + log_rets[j] / concurrency[j]\n"),
   ("        weights *= n_events / sum_weights\n", "        scale = n_events / sum_weights\n        weights = weights * scale\n")])
R["w_decay"] = ("C15", W, [("    const = 1. - slope * cum_avg_uniqueness[-1]\n    weights = const + slope * cum_avg_uniqueness\n", "    total = cum_avg_uniqueness[-1]\n    weights = 1. - slope * (total - cum_avg_uniqueness)\n")])
R["w_decay_if"] = ("C15", W, [("    if last_weight >= 0.0:\n        slope = (1. - last_weight) / cum_avg_uniqueness[-1]\n    else:\n        slope = 1. / ((last_weight + 1.) * cum_avg_uniqueness[-1])\n", "    total = cum_avg_uniqueness[-1]\n    slope = (1. - last_weight) / total if last_weight >= 0.0 else 1. / ((last_weight + 1.) * total)\n")])
R["w_class"] = ("C15", W, [("        class_weights[c] = total_weights / (n_classes * sum_w_class[c]) if sum_w_class[c] > 0. else 0.0\n", "        if sum_w_class[c] > 0.:\n            class_weights[c] = total_weights / (n_classes * sum_w_class[c])\n"),
   ("    total_weights = np.sum(sum_w_class)\n", "    total_weights = sum_w_class.sum()\n")])
R["cus_inline"] = ("C16", S, [("        if s_neg < -thrs:\n            s_neg = 0.0\n            event_indices[num_events] = i\n            num_events += 1\n        elif s_pos > thrs:\n            s_pos = 0.0\n            event_indices[num_events] = i\n            num_events += 1\n",
   "        hit_down = s_neg < -thrs\n        hit_up = not hit_down and s_pos > thrs\n        if hit_down:\n            s_neg = 0.0\n        if hit_up:\n            s_pos = 0.0\n        if hit_down or hit_up:\n            event_indices[num_events] = i\n            num_events += 1\n")])
R["cus_noarr"] = ("C16", S, [("        ret = log_returns[i]\n", "        ret = np.log(raw_time_series[i] / raw_time_series[i - 1])\n")])
R["cus_full"] = ("C16", S, [("        tmp = np.empty(n, dtype=np.float64)\n        tmp.fill(threshold[0])\n        threshold = tmp\n", "        threshold = np.full(n, threshold[0], dtype=np.float64)\n")])
R["lag_hoist"] = ("C17", F + "utils.py", [("            if close[lag_idx] != 0.0:\n                if is_log:\n                    # Calculate log return\n                    ret = np.log(close[i] / close[lag_idx])\n                else:\n                    # Calculate simple return\n                    ret = close[i] / close[lag_idx] - 1.0\n                returns[i] = ret\n",
  "            base = close[lag_idx]\n            if base != 0.0:\n                ratio = close[i] / base\n                returns[i] = np.log(ratio) if is_log else ratio - 1.0\n")])
R["z_loop"] = ("C17", F + "utils.py", [("        variance = np.sum((window_data - mean) ** 2) / (len(window_data) - ddof)\n", "        dev = window_data - mean\n        variance = np.sum(dev * dev) / (window - ddof)\n")])
R["burst_full"] = ("C17", F + "utils.py", [("        out[i] = series[i]/med if med>0 else np.nan\n", "        if med > 0:\n            out[i] = series[i] / med\n        else:\n            out[i] = np.nan\n")])
R["pct_full"] = ("C17", F + "utils.py", [("    out = np.empty(n, np.float64)\n    out[:periods] = np.nan\n    for t in range(periods, n):\n        base = x[t-periods]\n        out[t] = (x[t]-base)/base if base > 0 else np.nan\n", "    out = np.full(n, np.nan)\n    for t in range(periods, n):\n        base = x[t - periods]\n        if base > 0:\n            out[t] = (x[t] - base) / base\n")])
R["ewma_decay"] = ("C18", F + "ma.py", [("        u_t = y[t] + (1.0 - alpha) * u_t\n        v_t = 1.0 + (1.0 - alpha) * v_t\n", "        u_t = (1.0 - alpha) * u_t + y[t]\n        v_t = (1.0 - alpha) * v_t + 1.0\n")])
R["ewma_decay2"] = ("C18", F + "ma.py", [("    alpha = 2.0 / (span + 1.0)\n", "    decay = (span - 1.0) / (span + 1.0)\n"), ("        u_t = y[t] + (1.0 - alpha) * u_t\n        v_t = 1.0 + (1.0 - alpha) * v_t\n", "        u_t = decay * u_t + y[t]\n        v_t = decay * v_t + 1.0\n")])
R["sma_roll"] = ("C18", F + "ma.py", [("        sma[i] = 1./N * np.sum(array[i-N+1 : i+1], dtype=np.float64)\n", "        total = 0.0\n        for k in range(i - N + 1, i + 1):\n            total += array[k]\n        sma[i] = total / N\n")])
R["rsi_helper"] = ("C18", F + "momentum.py", [("        gain = diff if diff > 0.0 else 0.0\n        loss = -diff if diff < 0.0 else 0.0\n", "        gain = max(diff, 0.0)\n        loss = max(-diff, 0.0)\n")])
R["roc_simpl"] = ("C18", F + "momentum.py", [("        roc[i] = ((price[i] - price[i - period]) / price[i - period]) * 100\n", "        prev = price[i - period]\n        roc[i] = 100 * (price[i] - prev) / prev\n")])
R["stoch_full"] = ("C18", F + "momentum.py", [("""        if low[out_idx] == lo or high[out_idx] == hi:
            lo = np.min(low[t - length + 1:t + 1])
            hi = np.max(high[t - length + 1:t + 1])
        else:
            lo = min(lo, low[t])
            hi = max(hi, high[t])
""", """        if low[out_idx] == lo:
            lo = np.min(low[t - length + 1:t + 1])
        else:
            lo = min(lo, low[t])
        if high[out_idx] == hi:
            hi = np.max(high[t - length + 1:t + 1])
        else:
            hi = max(hi, high[t])
""")])
V = F + "volatility.py"
R["ewms_var"] = ("C19", V, [("        S_w = one_minus_alpha * S_w + (0.0 if np.isnan(y_t) else 1.0)\n        S_w2 = (one_minus_alpha ** 2) * S_w2 + (0.0 if np.isnan(y_t) else 1.0)\n", "        seen = 0.0 if np.isnan(y_t) else 1.0\n        S_w = one_minus_alpha * S_w + seen\n        S_w2 = one_minus_alpha * one_minus_alpha * S_w2 + seen\n")])
R["mean0_beta"] = ("C19", V, [("        var = U / V if V > 0.0 else np.nan\n        if var < 0.0:\n            var = 0.0\n        sigma = np.sqrt(var)\n        if sigma < sigma_floor:\n            sigma = sigma_floor\n\n        out[i] = sigma\n", "        if V > 0.0:\n            out[i] = max(np.sqrt(max(U / V, 0.0)), sigma_floor)\n        else:\n            out[i] = np.nan\n")])
R["mean0_ts"] = ("C19", V, [("        dt = (timestamps[i] - last_ts) / 1e9\n        last_ts = timestamps[i]\n\n        # decay factor\n        alpha = 1.0 - np.exp(-dt / half_life)\n\n        # update U,V", "        dt = (timestamps[i] - timestamps[i - 1]) / 1e9\n\n        # decay factor\n        alpha = 1.0 - np.exp(-dt / half_life)\n\n        # update U,V")])
R["tr_nested"] = ("C19", V, [("            tr[i] = max(high[i] - low[i],\n                      abs(high[i] - close[i - 1]),\n                      abs(low[i] - close[i - 1])\n                     )  # TR formula\n", "            prev = close[i - 1]\n            tr[i] = max(max(high[i] - low[i], abs(high[i] - prev)), abs(low[i] - prev))\n")])
R["tr_alt"] = ("C19", V, [("            tr[i] = max(high[i] - low[i],\n                      abs(high[i] - close[i - 1]),\n                      abs(low[i] - close[i - 1])\n                     )  # TR formula\n", "            span = high[i] - low[i]\n            up = abs(high[i] - close[i - 1])\n            if up > span:\n                span = up\n            dn = abs(low[i] - close[i - 1])\n            if dn > span:\n                span = dn\n            tr[i] = span\n")])
R["rv_loop"] = ("C19", V, [("        valid_count = 0\n        for val in r_window:\n            if not np.isnan(val):\n                valid_count += 1\n\n        if valid_count > 1:\n            divisor = (valid_count - 1) if is_sample else valid_count\n            rv[i] = np.sqrt(np.nansum(r_window ** 2) / divisor)\n", "        valid_count = 0\n        total = 0.0\n        for val in r_window:\n            if not np.isnan(val):\n                valid_count += 1\n                total += val * val\n\n        if valid_count > 1:\n            divisor = (valid_count - 1) if is_sample else valid_count\n            rv[i] = np.sqrt(total / divisor)\n")])
R["boll_recompute"] = ("C19", V, [("        rolling_sum += close[i] - close[i - window]\n        rolling_sum_sq += close[i] ** 2 - close[i - window] ** 2\n", "        old = close[i - window]\n        new = close[i]\n        rolling_sum = rolling_sum + new - old\n        rolling_sum_sq = rolling_sum_sq + new * new - old * old\n")])
R["park_sq"] = ("C19", V, [("        out[i] = (np.log(high[i]/low[i])**2) / ln2\n", "        r = np.log(high[i] / low[i])\n        out[i] = r * r / ln2\n")])
R["rvar_slice"] = ("C19", V, [("""        for j in range(window):
            if not np.isnan(window_data[j]):
                valid_count += 1
                sum_val += window_data[j]
                sum_sq += window_data[j] * window_data[j]
""", """        for v in window_data:
            if np.isnan(v):
                continue
            valid_count += 1
            sum_val += v
            sum_sq += v * v
""")])
R["vr_flip"] = ("C19", V, [("            result[i] = var_1bar[i] / (var_4bar[i] / 4)\n", "            result[i] = 4 * var_1bar[i] / var_4bar[i]\n")])
R["adx_else"] = ("C20", F + "trend.py", [("        else:\n            plus_dm[i] = 0\n", ""), ("        smoothed_tr[i] = smoothed_tr[i-1] - (smoothed_tr[i-1] / length) + tr[i]\n", "        prev_tr = smoothed_tr[i-1]\n        smoothed_tr[i] = prev_tr - prev_tr / length + tr[i]\n")])
R["adx_fuse"] = ("C20", F + "trend.py", [("""    dx = np.zeros(size)
    for i in range(length, size):
        if (plus_di[i] + minus_di[i]) > 0:
            dx[i] = 100 * (abs(plus_di[i] - minus_di[i]) / (plus_di[i] + minus_di[i]))
""", """    dx = np.zeros(size)
    for i in range(length, size):
        di_sum = plus_di[i] + minus_di[i]
        di_gap = abs(plus_di[i] - minus_di[i])
        if di_sum > 0:
            dx[i] = 100 * (di_gap / di_sum)
""")])
R["poc_helper"] = ("C21", F + "volume.py", [("""@njit(nogil=True)
def comp_poc_hva_lva(""", """@njit(nogil=True)
def _pair_volume(volumes, first, second, n_levels):
    total = -1.0
    if 0 <= first < n_levels:
        total = volumes[first]
        if 0 <= second < n_levels:
            total += volumes[second]
    return total


@njit(nogil=True)
def comp_poc_hva_lva("""), ("""            up_idx += 2
            # Update current_up_volume for the new up_idx
            current_up_volume = -1.0
            if up_idx < n_levels:
                current_up_volume = volumes[up_idx]
                if up_idx + 1 < n_levels:
                    current_up_volume += volumes[up_idx + 1]
""", """            up_idx += 2
            # Update current_up_volume for the new up_idx
            current_up_volume = _pair_volume(volumes, up_idx, up_idx + 1, n_levels)
""")])
R["pct_mask"] = ("C21", F + "volume.py", [("""    volume_above_poc = 0.0
    for i in range(len(price_levels)):
        if price_levels[i] > poc_price:
            volume_above_poc += volumes[i]
""", """    volume_above_poc = 0.0
    for lvl, vol in zip(price_levels, volumes):
        if lvl > poc_price:
            volume_above_poc += vol
""")])
R["flow_direct"] = ("C22", F + "volume.py", [("        recent_sum = S[i+1] - S[i+1 - recent_periods]\n        past_sum   = S[i+1 - recent_periods] - S[i+1 - window]\n", "        cut = i + 1 - recent_periods\n        recent_sum = S[i+1] - S[cut]\n        past_sum = S[cut] - S[i+1 - window]\n"), ("        S[i+1] = S[i] + volumes[i]\n", "        S[i+1] = volumes[i] + S[i]\n")])
R["vpin_split"] = ("C22", F + "volume.py", [("        is_nan = np.isnan(vb) or np.isnan(vs)\n\n        buy_cum[i+1]  = buy_cum[i]  + (0.0 if is_nan else vb)\n        sell_cum[i+1] = sell_cum[i] + (0.0 if is_nan else vs)\n        abs_cum[i+1]  = abs_cum[i]  + (0.0 if is_nan else abs(vb - vs))\n", "        is_nan = np.isnan(vb) or np.isnan(vs)\n        if is_nan:\n            vb = 0.0\n            vs = 0.0\n\n        buy_cum[i+1] = buy_cum[i] + vb\n        sell_cum[i+1] = sell_cum[i] + vs\n        abs_cum[i+1] = abs_cum[i] + abs(vb - vs)\n")])
R["corr_clip"] = ("C22", F + "correlation.py", [("            corr = cov / (np.sqrt(std_returns) * np.sqrt(std_volume))\n\n            # Ensure the result is within valid range\n            if corr > 1.0:\n                corr = 1.0\n            elif corr < -1.0:\n                corr = -1.0\n\n            result[i] = corr\n", "            corr = cov / (np.sqrt(std_returns) * np.sqrt(std_volume))\n            result[i] = min(max(corr, -1.0), 1.0)\n")])
R["vwapd"] = ("C22", F + "reversion.py", [("        left_pv = close[i - n_periods] * volume[i - n_periods]\n        wsum += close[i] * volume[i] - left_pv\n        vsum += volume[i] - volume[i - n_periods]\n", "        j = i - n_periods\n        wsum = wsum + close[i] * volume[i] - close[j] * volume[j]\n        vsum = vsum + volume[i] - volume[j]\n")])
R["cusum_sb"] = ("C23", F + "structural_break/cusum.py", [("        s_n_t_down = -min(0, dyn) / denominator  # Make it positive\n", "        s_n_t_down = max(0, -dyn) / denominator\n")])
R["cusum_sb2"] = ("C23", F + "structural_break/cusum.py", [("    cum_squared_diff = np.cumsum(np.diff(y) ** 2)\n\n    for t in prange", "    steps = np.diff(y)\n    cum_squared_diff = np.cumsum(steps * steps)\n    for t in prange")])
R["time_flags"] = ("C24", F + "time.py", [("        if 0 <= hour < 8:\n            asia[i] = 1\n        if 7 <= hour < 15:\n            eu[i]   = 1\n", "        asia[i] = hour < 8\n        eu[i] = hour >= 7 and hour < 15\n"), ("        if (hour in (0,7,13)) and minute == 0:\n", "        if minute == 0 and (hour == 0 or hour == 7 or hour == 13):\n")])
R["time_hour"] = ("C24", F + "time.py", [("        minute = (sec_in_day % 3600) // 60\n", "        minute = sec_in_day // 60 - hour * 60\n")])
R["side_vec"] = ("C09", U, [("        merged_side[0]       = -1 if is_buyer_maker[0] else 1\n", "        if is_buyer_maker[0]:\n            merged_side[0] = -1\n        else:\n            merged_side[0] = 1\n"), ("        same_trade = (timestamps[i] == merged_timestamps[merged_idx] and\n                      abs(prices[i] - merged_prices[merged_idx]) < 1e-8)\n", "        same_time = timestamps[i] == merged_timestamps[merged_idx]\n        same_trade = same_time and abs(prices[i] - merged_prices[merged_idx]) < 1e-8\n")])
R["cusum_roll1"] = ("C23", F + "structural_break/cusum.py", [("        for current_idx in prange(window_size, n):\n            start_idx = current_idx - window_size\n", "        for start_idx in prange(n - window_size):\n            current_idx = start_idx + window_size\n")])
R["cusum_roll2"] = ("C23", F + "structural_break/cusum.py", [("                snt_up[start_idx:current_idx + 1] = s_n_t_values_up\n", "                snt_up[:window_size + 1] = s_n_t_values_up\n"),
    ("    if n < warmup_period + 2:\n        return snt_up, snt_down, critical_values_up, critical_values_down  # Not enough data to process\n\n    if n > window_size:\n", "    if n - warmup_period <= 1:\n        return snt_up, snt_down, critical_values_up, critical_values_down\n\n    if window_size < n:\n")])
R["cusum_roll3"] = ("C23", F + "structural_break/cusum.py", [("                (\n                    s_n_t_up,\n                    s_n_t_down,\n                    c_value_up,\n                    c_value_down,\n                ) = cusum_test_last(current_prices)\n                snt_up[current_idx] = s_n_t_up\n                snt_down[current_idx] = s_n_t_down\n", "                stats = cusum_test_last(current_prices)\n                c_value_up, c_value_down = stats[2], stats[3]\n                snt_up[current_idx], snt_down[current_idx] = stats[0], stats[1]\n")])
