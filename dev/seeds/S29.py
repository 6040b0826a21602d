PROP="C22"; FILE="finmlkit/feature/core/volume.py"
EDITS=[(FILE, "            if tot > 1e-9:", "            if tot > 1e-6:")]
NEEDS="an instrument traded in very small units, so that a whole window's volume stays below 1e-6"
BREAKS="VPIN is undefined where the window's volume is positive"
DEMO='''
import numpy as np
from finmlkit.feature.core.volume import vpin
b = np.array([3, 1, 4, 1, 5.]) * 1e-8; s = np.array([2, 7, 1, 8, 2.]) * 1e-8
r = vpin(b, s, 3)
assert not np.isnan(r[2:]).any(), r
'''
