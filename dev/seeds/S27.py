PROP="C07"; FILE="finmlkit/bar/base.py"
EDITS=[(FILE, "            price = float(prices[j])\n            tick_direction", "            price = np.float32(prices[j])\n            tick_direction")]
NEEDS="a price of more than about seven significant digits in ticks"
BREAKS="a trade is booked at a neighbouring price level, because the price is rounded to single precision"
DEMO='''
import numpy as np
from finmlkit.bar.base import comp_bar_footprints
p = np.array([20000000.01, 20000000.02, 20000000.03, 20000000.02, 20000000.01])
p = np.array([43210.0, 43210.0, 1.0]) 
tick = 0.01
p = np.array([263000.00, 263000.01, 263000.02, 263000.03, 263000.02])
r = comp_bar_footprints(p, np.ones(5), np.array([-1, 4]), np.ones(5, dtype=np.int8), tick, np.array([p.min()]), np.array([p.max()]), 3.0)
assert r[3][0].tolist() == [1, 1, 2, 1], r[3][0]
'''
