PROP="C01"; FILE="finmlkit/bar/kit.py"
EDITS=[(FILE, "        self.interval = period.total_seconds()", "        self.interval = period.seconds + period.microseconds * 1e-6")]
NEEDS="a bar interval of a day plus some hours"
BREAKS="whole days of the bar interval are dropped: 36-hour bars become 12-hour bars"
DEMO='''
import numpy as np, pandas as pd
from finmlkit.bar.data_model import TradesData
from finmlkit.bar.kit import TimeBarKit
t0 = pd.Timestamp("2024-01-01").value
ts = t0 + np.arange(120, dtype=np.int64) * 3600 * 10**9
td = TradesData(ts, np.arange(120) + 1.0, np.ones(120), id=np.arange(120), timestamp_unit="ns")
c = TimeBarKit(td, pd.Timedelta(hours=36)).bar_close_timestamps
assert set(np.diff(c)) == {36 * 3600 * 10**9}, np.diff(c) / 3600e9
'''
