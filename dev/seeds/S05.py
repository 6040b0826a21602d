PROP="C14"; FILE="finmlkit/label/weights.py"
OLD="        weights *= n_events / sum_weights"
NEW="        weights *= np.count_nonzero(weights) / sum_weights"
NEEDS="an event whose price path is flat, so that its raw weight is zero"
BREAKS="normalised weights no longer sum to the number of events"
DEMO='''
import numpy as np
from finmlkit.label.weights import return_attribution
c = np.array([10.0, 10.0, 10.0, 12.0, 13.0])
w = return_attribution(np.array([0, 2]), np.array([1, 4]), c, np.ones(5, dtype=np.int16), True)
assert abs(w.sum() - 2) < 1e-9, w
'''
