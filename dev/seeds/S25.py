PROP="C23"; FILE="finmlkit/feature/core/structural_break/cusum.py"
EDITS=[(FILE, "if denominator <= 1e-16:", "if denominator <= 1e-5:")]
NEEDS="a calm price series, whose log returns deviate by less than 1e-5"
BREAKS="reference bars of a calm series are skipped and the break statistics stay at their initial value"
DEMO='''
import numpy as np
from finmlkit.feature.core.structural_break.cusum import cusum_test_developing
rng = np.random.default_rng(1)
x = np.cumsum(rng.normal(0, 1.0, 60))
a, b = cusum_test_developing(np.exp(1e-7 * x), 10), cusum_test_developing(np.exp(1e-2 * x), 10)
assert np.allclose(a[0][10:], b[0][10:], rtol=1e-4) and np.allclose(a[1][10:], b[1][10:], rtol=1e-4)
'''
