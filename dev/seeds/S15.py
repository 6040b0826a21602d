PROP="C15"; FILE="finmlkit/label/weights.py"
OLD="        class_weights[c] = total_weights / (n_classes * sum_w_class[c]) if sum_w_class[c] > 0. else 0.0"
NEW="        class_weights[c] = total_weights / (n_classes * sum_w_class[c]) if sum_w_class[c] > 1e-8 else 0.0"
NEEDS="a class whose base weights add up to less than 1e-8 but more than 0"
BREAKS="a class of tiny positive total weight is dropped (weight 0) instead of balanced against the others"
DEMO='''
import numpy as np
from finmlkit.label.weights import class_balance_weights
u, cw, sw, fw = class_balance_weights(np.array([-1, 1, 1], dtype=np.int8), np.array([2e-9, 1e-9, 3e-9]))
assert abs(fw[0] - 3e-9) < 1e-15 and abs(fw[1] + fw[2] - 3e-9) < 1e-15, fw
'''
