PROP="C12"; FILE="finmlkit/label/tbm.py"
OLD="                max_urbr = max(max_urbr, ret / upper_barrier)"
NEW="                max_urbr = ret / upper_barrier"
NEEDS="an event closed by the vertical barrier whose best upward excursion lies before its end"
BREAKS="the barrier ratio forgets the largest excursion of the path"
DEMO='''
import numpy as np
from finmlkit.label.tbm import triple_barrier
t = np.arange(6, dtype=np.int64) * 10**9
c = np.exp(np.array([0.0, 0.4, 0.1, 0.2, 0.1, 0.05]))
l, i, r, m = triple_barrier(t, c, np.array([0]), np.array([0.5]), (1.0, 1.0), 4.0, 0.0, None, 0.0)
assert i[0] == 4 and abs(m[0] - 0.8) < 1e-9, (i, m)
'''
