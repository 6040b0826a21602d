PROP="C04"; FILE="finmlkit/bar/base.py"
OLD="            bar_median_trade_size[i] = np.median(trade_sizes)"
NEW="            bar_median_trade_size[i] = np.median(trade_sizes[trade_sizes > 0.0]) if total_volume > 0 else 0.0"
NEEDS="a bar that contains a trade of size zero"
BREAKS="the median trade size leaves out zero-size trades"
DEMO='''
import numpy as np
from finmlkit.bar.base import comp_bar_ohlcv
r = comp_bar_ohlcv(np.array([1.0, 2.0, 3.0, 4.0]), np.array([1.0, 0.0, 0.0, 5.0]), np.array([0, 3]))
assert r[7][0] == 0.0, r[7]
'''
