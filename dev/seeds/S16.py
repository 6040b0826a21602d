PROP="C20"; FILE="finmlkit/feature/core/trend.py"
OLD="        if high_diff > low_diff and high_diff > 0:"
NEW="        if high_diff >= low_diff and high_diff > 0:"
NEEDS="an outside bar that extends equally far up and down"
BREAKS="an equal expansion counts as upward movement"
DEMO='''
import numpy as np
from finmlkit.feature.core.trend import adx_core
h = np.array([5.0, 6.0, 6.5, 6.0, 6.25, 6.0, 6.0]); l = np.array([4.0, 3.0, 3.5, 3.0, 3.5, 3.25, 3.0]); c = (h + l) / 2
r = adx_core(h, l, c, 2)
pd = np.array([0, 0.0, 0.5, 0, 0.25, 0, 0]); md = np.array([0, 0.0, 0, 0.5, 0, 0.25, 0.25])
tr = np.array([0] + [max(h[i] - l[i], abs(h[i] - c[i-1]), abs(l[i] - c[i-1])) for i in range(1, 7)])
def w(x):
    o = np.zeros(7); o[2] = x[1] + x[2]
    for i in range(3, 7): o[i] = o[i-1] - o[i-1] / 2 + x[i]
    return o
p, m, t = w(pd), w(md), w(tr)
dx = np.zeros(7)
for i in range(2, 7): dx[i] = 100 * abs(p[i] - m[i]) / (p[i] + m[i])
a = np.zeros(7); a[3] = (dx[2] + dx[3]) / 2
for i in range(4, 7): a[i] = (a[i-1] + dx[i]) / 2
assert np.allclose(r, a), (r, a)
'''
