PROP="C28"; FILE="finmlkit/bar/io.py"
EDITS=[(FILE, "return float(sizes[np.searchsorted(cum_w, cutoff, side=\"left\")])", "return float(sizes[np.searchsorted(cum_w, cutoff, side=\"right\")])")]
NEEDS="half of a longer bar's trades fall exactly on one of the stored bars"
BREAKS="the weighted median of a resampled bar is the next larger size when the half point is hit exactly"
DEMO='''
import os, tempfile
import numpy as np, pandas as pd
from finmlkit.bar.io import TimeBarReader
df = pd.DataFrame({"open": 1.0, "high": 1.0, "low": 1.0, "close": 1.0, "volume": 1.0, "trades": [2, 2], "median_trade_size": [1.0, 5.0], "vwap": 1.0}, index=pd.to_datetime(["2024-01-01 00:00:01", "2024-01-01 00:00:02"]))
r = TimeBarReader.__new__(TimeBarReader)._resample(df, "1min")
assert r["median_trade_size"].iloc[0] == 1.0, r["median_trade_size"]
'''
