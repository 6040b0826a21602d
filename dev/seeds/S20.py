PROP="C11"; FILE="finmlkit/bar/data_model.py"
OLD="                if time_diff > pd.Timedelta(minutes=1):"
NEW="                if time_diff.seconds > 60:"
NEEDS="missing ids over an interval whose remainder after whole days is at most a minute"
BREAKS="a gap of whole days in the trade ids is not reported and the data is called intact"
DEMO='''
import numpy as np
from finmlkit.bar.data_model import TradesData
t0 = 1_600_000_000 * 10**9
ts = np.array([t0, t0 + 10**9, t0 + 86400 * 10**9 + 31 * 10**9], dtype=np.int64)
td = TradesData(ts, np.array([1.0, 2.0, 3.0]), np.ones(3), id=np.array([1, 2, 500]), timestamp_unit="ns", preprocess=True)
assert td.data_ok is False and len(td.discontinuities) == 1, (td.data_ok, td.discontinuities)
'''
