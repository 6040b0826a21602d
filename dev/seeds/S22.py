PROP="C27"; FILE="finmlkit/feature/utils.py"
EDITS=[(FILE, '"seconds": val.total_seconds()}', '"seconds": val.seconds + val.microseconds / 1e6}')]
NEEDS="a feature whose time window is a day or longer"
BREAKS="whole days of a time window are lost when the configuration is saved"
DEMO='''
import os, tempfile
import pandas as pd
from finmlkit.feature.kit import Feature, FeatureKit
from finmlkit.feature.transforms import ReturnT
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "k.json")
    FeatureKit([Feature(ReturnT(pd.Timedelta(hours=25)))]).save_config(p)
    k = FeatureKit.from_config(p)
    assert k.features[0].transform.window == pd.Timedelta(hours=25), k.features[0].transform.window
'''
