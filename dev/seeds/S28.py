PROP="C25"; FILE="finmlkit/feature/core/ma.py"
EDITS=[(FILE, "    alpha = 2.0 / (span + 1.0)\n    u_t = y[0]", "    alpha = 2.0 / (min(span, n) + 1.0)\n    u_t = y[0]")]
NEEDS="a series shorter than the span"
BREAKS="values of an exponential average change when later bars are added"
DEMO='''
import numpy as np
from finmlkit.feature.core.ma import ewma
x = np.arange(1.0, 31.0) ** 2
assert np.allclose(ewma(x[:6], 20), ewma(x, 20)[:6])
'''
