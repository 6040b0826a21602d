PROP="C10"; FILE="finmlkit/bar/utils.py"
OLD="    epsilon = 1e-12 "
NEW="    epsilon = 1e-8 "
NEEDS="price changes smaller than 1e-8, as of a coin quoted in sub-satoshi units"
BREAKS="the tick rule takes a small price change for no change and repeats the previous side"
DEMO='''
import numpy as np
from finmlkit.bar.utils import comp_trade_side_vector
s = comp_trade_side_vector(np.array([3.0e-8, 3.5e-8, 3.2e-8, 3.2e-8, 3.6e-8]))
assert s.tolist() == [0, 1, -1, -1, 1], s
'''
