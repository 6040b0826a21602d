PROP="C08"; FILE="finmlkit/bar/base.py"
OLD="buy_imbalances_sum[i] = np.sum(buy_imbalances_i, dtype=np.uint16)"
NEW="buy_imbalances_sum[i] = np.sum(buy_imbalances_i, dtype=np.uint8)"
NEEDS="a bar with more than 255 imbalanced price levels"
BREAKS="the number of buy imbalances of a bar wraps around at 256"
DEMO='''
import numpy as np
from finmlkit.bar.base import comp_bar_footprints
n = 400
p = np.arange(1, n + 1) * 1.0
r = comp_bar_footprints(p, np.ones(n), np.array([-1, n - 1]), np.ones(n, dtype=np.int8), 1.0, np.array([1.0]), np.array([float(n)]), 2.0)
assert int(r[7][0]) == int(np.sum(r[5][0])) > 255, (r[7][0], np.sum(r[5][0]))
'''
