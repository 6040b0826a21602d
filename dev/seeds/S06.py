PROP="C06"; FILE="finmlkit/bar/base.py"
OLD="np.percentile(amounts_bar, 95) / thr)"
NEW="np.percentile(amounts_bar[-256:], 95) / thr)"
NEEDS="a bar with more than 256 trades whose early trades are large"
BREAKS="the 95th percentile looks at the last 256 trades of the bar only"
DEMO='''
import numpy as np
from finmlkit.bar.base import comp_bar_trade_size_features
a = np.ones(400); a[:100] = 50.0
r = comp_bar_trade_size_features(a, np.array([2.0]), np.array([-1, 399]), 5.0)
assert abs(r[1][0] - np.log1p(np.percentile(a, 95) / 10.0)) < 1e-5, r[1]
'''
