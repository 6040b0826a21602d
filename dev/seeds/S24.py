PROP="C29"; FILE="finmlkit/feature/transforms.py"
EDITS=[(FILE, "for day, day_data in x.groupby(pd.Grouper(freq='D')):", "for day, day_data in x.groupby(x.index.day):")]
NEEDS="a table longer than a month, so that a day of the month comes back"
BREAKS="the opening range of a day also governs the same day of later months"
DEMO='''
import numpy as np, pandas as pd
from finmlkit.feature.transforms import ORBBreak
idx = pd.date_range("2024-01-01", "2024-02-02 23:00", freq="6h")
idx = pd.date_range("2024-01-01", "2024-02-02 23:00", freq="4h")
c = np.linspace(100, 200, len(idx))
df = pd.DataFrame({"high": c + 1, "low": c - 1, "close": c}, index=idx)
df.loc[df.index >= "2024-02-01", ["high", "low", "close"]] = 50.0
l, s = ORBBreak()(df)
assert not l["2024-02-01":].any() and not s["2024-02-01":].any()
'''
