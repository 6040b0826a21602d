PROP="C26"; FILE="finmlkit/feature/kit.py"
EDITS=[(FILE, """                indeg[d] -= 1
                if indeg[d] == 0:
                    zero.append(d)""", """                indeg[d] -= 1
                if d not in order and d not in zero:
                    zero.append(d)""")]
NEEDS="a feature that consumes both a feature and a feature derived from that one, built in topological order"
BREAKS="a feature is scheduled as soon as one of the features it needs is there, before the others"
DEMO='''
import numpy as np, pandas as pd, itertools
from finmlkit.feature.kit import Feature, FeatureKit
from finmlkit.feature.transforms import SMA, Lag, VPIN
df = pd.DataFrame({"close": np.arange(1.0, 21.0)}, index=pd.date_range("2024-01-01", periods=20, freq="h"))
a, b = Feature(SMA(2, "close")), None
an = a.transform.output_name
b = Feature(Lag(1, an)); bn = b.transform.output_name
c = Feature(VPIN(3, [an, bn]))
ref = FeatureKit([a, b, c]).build(df)
for p in itertools.permutations([a, b, c]):
    for _ in range(3):
        out = FeatureKit(list(p)).build(df, order="topo")
        for n in ref.columns:
            assert np.allclose(out[n], ref[n], equal_nan=True), n
'''
