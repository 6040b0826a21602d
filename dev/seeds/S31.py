PROP="C29"; FILE="finmlkit/feature/transforms.py"
EDITS=[(FILE, "                opening_range_low = first_hour_data[self.requires[1]].min()", "                opening_range_low = first_hour_data[self.requires[1]].min(skipna=False)")]
EDITS=[(FILE, "            if first_timestamp.hour == 0 and first_timestamp.minute == 0:", "            if first_timestamp.hour == 0:")]
NEEDS="a day whose first bar is within the first hour but not at midnight"
BREAKS="an opening range is taken on days that do not start at midnight"
DEMO='''
import numpy as np, pandas as pd
from finmlkit.feature.transforms import ORBBreak
idx = pd.date_range("2024-01-01 00:15", periods=20, freq="15min")
c = np.linspace(100, 200, 20)
df = pd.DataFrame({"high": c + .1, "low": c - .1, "close": c}, index=idx)
l, s = ORBBreak()(df)
assert not l.any() and not s.any()
'''
