PROP="C09"; FILE="finmlkit/bar/utils.py"
OLD="""        if same_trade:
            merged_amounts[merged_idx] += amounts[i]"""
NEW="""        if same_trade or amounts[i] == 0.0:
            merged_amounts[merged_idx] += amounts[i]"""
NEEDS="a trade of amount zero with its own timestamp or price"
BREAKS="a trade at its own time and price vanishes into the one before it"
DEMO='''
import numpy as np
from finmlkit.bar.utils import merge_split_trades
t, p, a, s = merge_split_trades(np.array([1, 2, 3], dtype=np.int64), np.array([10.0, 12.0, 11.0]), np.array([1.0, 0.0, 2.0], dtype=np.float32), np.array([True, False, True]))
assert len(t) == 3, t
'''
