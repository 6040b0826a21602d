PROP="C02"; FILE="finmlkit/bar/logic.py"
OLD="            cum_dollar = cum_dollar - threshold"
NEW="            cum_dollar = cum_dollar % threshold"
NEEDS="a single trade whose dollar volume is at least twice the threshold"
BREAKS="the excess over the threshold is partly dropped, so the next dollar bars close late"
DEMO='''
import numpy as np
from finmlkit.bar.logic import _dollar_bar_indexer
p = np.array([10.0, 10.0, 10.0, 10.0]); v = np.array([1.0, 35.0, 1.0, 1.0])
r = list(_dollar_bar_indexer(p, v, 100.0))
assert r == [0, 1, 2, 3], r
'''
