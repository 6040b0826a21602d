PROP="C05"; FILE="finmlkit/bar/base.py"
OLD="            prev_tick_sign = current_tick_sign"
NEW="            prev_tick_sign = current_tick_sign if current_tick_sign != 0 else prev_tick_sign"
NEEDS="a trade without a known side between two trades"
BREAKS="the side switch around an unsigned trade is not counted into the spreads"
DEMO='''
import numpy as np
from finmlkit.bar.base import comp_bar_directional_features
p = np.array([10.0, 10.0, 11.0, 13.0]); v = np.ones(4)
r = comp_bar_directional_features(p, v, np.array([0, 3]), np.array([1, 1, 0, 1], dtype=np.int8))
assert abs(r[7][0] - 2.0) < 1e-6 and abs(r[6][0] - 1.5) < 1e-6, (r[6], r[7])
'''
