"""Which contracts and bounded stand-ins decide which property."""
L = "finmlkit/bar/logic.py:"
B = "finmlkit/bar/base.py:"
U = "finmlkit/bar/utils.py:"
F = "finmlkit/feature/core/"
W = "finmlkit/label/weights.py:"
KERNELS = ([F + "utils.py:" + f for f in ("comp_lagged_returns", "comp_zscore", "comp_burst_ratio", "pct_change")] + [F + "ma.py:ewma", F + "ma.py:sma"] + [F + "momentum.py:" + f for f in ("roc", "rsi_wilder", "stoch_k")]
           + [F + "volatility.py:" + f for f in ("variance_ratio_1_4_core#log", "variance_ratio_1_4_core#simple", "ewmst", "ewmst_mean0", "ewms", "true_range", "realized_vol", "bollinger_percent_b", "parkinson_range", "rolling_variance_nb", "atr#sma", "atr#ema")]
           + [F + x for x in ("trend.py:adx_core", "volume.py:vpin", "volume.py:comp_flow_acceleration", "correlation.py:rolling_price_volume_correlation", "reversion.py:vwap_distance", "time.py:time_cues", "structural_break/cusum.py:cusum_test_developing")]
           + ["finmlkit/feature/transforms.py:DirRunLen.numba_core", "finmlkit/sampling/filters.py:cusum_filter", U + "comp_trade_side_vector"])
PROPS = {
    "C01": dict(level="proof", modules=["contracts.bar_logic"], contracts=[L + "_time_bar_indexer"], bounded=["time_bar_builder"], bmodules=["bounded.bars"]),
    "C02": dict(level="proof", modules=["contracts.bar_logic"], contracts=[L + "_tick_bar_indexer", L + "_volume_bar_indexer", L + "_dollar_bar_indexer"], bounded=["threshold_bar_builders"], bmodules=["bounded.bars"]),
    "C03": dict(level="proof", modules=["contracts.bar_logic"], contracts=[L + "_cusum_bar_indexer"], bounded=["cusum_bar_builder"], bmodules=["bounded.bars"]),
    "C04": dict(level="proof", modules=["contracts.bar_ohlcv"], contracts=[B + "comp_bar_ohlcv"], bounded=["ohlcv_builder"], bmodules=["bounded.bars"]),
    "C05": dict(level="proof", modules=["contracts.bar_ohlcv"], contracts=[B + "comp_bar_directional_features"], bounded=["directional_builder"], bmodules=["bounded.bars"]),
    "C06": dict(level="proof", modules=["contracts.bar_ohlcv"], contracts=[B + "comp_bar_trade_size_features"], bounded=["trade_size_builder"], bmodules=["bounded.bars"]),
    "C07": dict(level="proof", modules=["contracts.bar_footprint"], contracts=[B + "comp_bar_footprints", B + "comp_footprint_features"], bounded=["footprint_builder"], bmodules=["bounded.bars"]),
    "C08": dict(level="proof", modules=["contracts.bar_footprint"], contracts=[B + "comp_footprint_features", B + "comp_bar_footprints#features"], bounded=["footprint_builder"], bmodules=["bounded.bars"]),
    "C09": dict(level="proof", modules=["contracts.bar_utils"], contracts=[U + "merge_split_trades#plain", U + "merge_split_trades#side"], bounded=["preprocessing"], bmodules=["bounded.trades"]),
    "C10": dict(level="proof", modules=["contracts.bar_utils"], contracts=[U + "comp_trade_side", U + "comp_trade_side_vector"]),
    "C12": dict(level="proof", modules=["contracts.label_tbm"], contracts=["finmlkit/label/tbm.py:triple_barrier#side", "finmlkit/label/tbm.py:triple_barrier#meta"], bounded=["tbm_label", "label_rejection"], bmodules=["bounded.labels"]),
    "C13": dict(level="proof", modules=["contracts.label_weights"], contracts=[W + "average_uniqueness"], bounded=["info_weights"], bmodules=["bounded.labels"]),
    "C14": dict(level="proof", modules=["contracts.label_weights"], contracts=[W + "return_attribution"], bounded=["info_weights"], bmodules=["bounded.labels"]),
    "C15": dict(level="proof", modules=["contracts.label_weights"], contracts=[W + "time_decay", W + "class_balance_weights"], bounded=["final_weights", "label_rejection"], bmodules=["bounded.labels"]),
    "C16": dict(level="proof", modules=["contracts.sampling"], contracts=["finmlkit/sampling/filters.py:cusum_filter"]),
    "C17": dict(level="proof", modules=["contracts.feat_utils"], contracts=[F + "utils.py:" + f for f in ("comp_lagged_returns", "comp_zscore", "comp_burst_ratio", "pct_change")], bounded=["return_t", "zscore", "burst_ratio", "pct_change_t"], bmodules=["bounded.feats"]),
    "C18": dict(level="proof", modules=["contracts.feat_ma"], contracts=[F + "ma.py:ewma", F + "ma.py:sma", F + "momentum.py:roc", F + "momentum.py:rsi_wilder", F + "momentum.py:stoch_k"], bounded=["ewma_t", "sma_t", "roc_t", "rsi_t", "stoch_k_t"], bmodules=["bounded.feats"]),
    "C19": dict(level="proof", modules=["contracts.feat_vol"], contracts=[F + "volatility.py:" + f for f in ("ewms", "ewmst_mean0", "ewmst", "true_range", "realized_vol", "bollinger_percent_b", "parkinson_range", "rolling_variance_nb", "atr#sma", "atr#ema", "variance_ratio_1_4_core#log", "variance_ratio_1_4_core#simple")], bounded=["realized_vol_t", "bollinger_t", "parkinson_t", "atr_sma_t", "atr_ema_t", "variance_ratio_log", "variance_ratio_simple", "ewmst_t"], bmodules=["bounded.feats"]),
    "C20": dict(level="proof", modules=["contracts.feat_trend"], contracts=[F + "trend.py:adx_core"], bounded=["adx_t"], bmodules=["bounded.feats"]),
    "C22": dict(level="proof", modules=["contracts.feat_volume"], contracts=[F + "volume.py:vpin", F + "volume.py:comp_flow_acceleration", F + "reversion.py:vwap_distance", F + "correlation.py:rolling_price_volume_correlation"], bounded=["vpin_t", "flow_t", "correlation_t", "vwap_t", "correlation_special"], bmodules=["bounded.feats"]),
    "C23": dict(level="proof", modules=["contracts.feat_break"], contracts=[F + "structural_break/cusum.py:" + f for f in ("cusum_test_developing#prefix", "cusum_test_last#window", "cusum_test_rolling")], bounded=["cusum_test_t"], bmodules=["bounded.feats"]),
    "C24": dict(level="proof", modules=["contracts.feat_time"], contracts=[F + "time.py:time_cues"], bounded=["time_cues_t"], bmodules=["bounded.feats"]),
    "C21": dict(level="proof", modules=["contracts.feat_profile"], contracts=[F + "volume.py:comp_poc_hva_lva", F + "volume.py:calc_volume_percentage_above_poc"], bounded=["profiles"], bmodules=["bounded.profiles"]),
    "C25": dict(level="proof", modules=["contracts.causal"], contracts=sorted(KERNELS, key=lambda k: not any(x in k for x in ("variance_ratio", "cusum_test", "ewmst"))) + ["lemma:causal/" + k.replace("finmlkit/", "").replace("feature/core/", "").replace(":", ".") for k in KERNELS + [F + "structural_break/cusum.py:cusum_test_rolling"]],
                limit=400, no_runtime=True, bounded=["kernel_prefix", "transform_prefix"], bbudget=30, bmodules=["bounded.causality"]),
    "C11": dict(level="exploration", modules=["contracts.bar_utils"], contracts=[U + "check_timestamps_order"], bounded=["preprocessing", "rejection"], bbudget=75, bmodules=["bounded.trades"]),
    "C26": dict(level="exploration", modules=[], contracts=[], bounded=["build", "name_collision"], bbudget=75, bmodules=["bounded.kits"]),
    "C27": dict(level="exploration", modules=[], contracts=[], bounded=["roundtrip"], bbudget=75, bmodules=["bounded.kits"]),
    "C28": dict(level="exploration", modules=[], contracts=[], bounded=["store_roundtrip", "time_bars"], bbudget=75, bmodules=["bounded.store"]),
    "C29": dict(level="exploration", modules=["contracts.feat_runs"], contracts=["finmlkit/feature/transforms.py:DirRunLen.numba_core"], bounded=["bar_features"], bbudget=75, bmodules=["bounded.feats"]),
}
