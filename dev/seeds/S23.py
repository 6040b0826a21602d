PROP="C28"; FILE="finmlkit/bar/data_model.py"
EDITS=[(FILE, "(start is None or last >= start)", "(start is None or last > start)")]
NEEDS="a range query that starts exactly at the last trade of a month"
BREAKS="the month's last trades are not returned by a query starting at their timestamp"
DEMO='''
import os, tempfile
import numpy as np, pandas as pd
from finmlkit.bar.data_model import TradesData
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "t.h5")
    for m in ("2023-01-05", "2023-02-05"):
        t0 = pd.Timestamp(m).value
        TradesData(np.array([t0, t0 + 10**9]), np.array([1.0, 2.0]), np.ones(2), id=np.arange(2), timestamp_unit="ns").save_h5(p)
    out = TradesData.load_trades_h5(p, start_time=pd.Timestamp("2023-01-05 00:00:01"), enable_multiprocessing=False)
    assert len(out.data) == 3, len(out.data)
'''
