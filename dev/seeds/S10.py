PROP="C16"; FILE="finmlkit/sampling/filters.py"
OLD="""        if s_neg < -thrs:
            s_neg = 0.0
"""
NEW="""        if s_neg < -thrs:
            s_neg = 0.0
            s_pos = 0.0
"""
NEEDS="a threshold that varies along the series: a downward event while upward drift is still accumulated"
BREAKS="a downward event also discards the upward sum"
DEMO='''
import numpy as np
from finmlkit.sampling.filters import cusum_filter
p = np.exp(np.array([0.0, 0.5, 0.3, 0.8]))
r = cusum_filter(p, np.array([1.0, 1.0, 0.1, 0.6]))
assert list(r) == [2, 3], r
'''
