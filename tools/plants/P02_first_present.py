property = 'P02'
needs = 'a label whose first value is missing and a later one is not'
what = 'squeeze without an aggregation returns the first non-missing value of each label rather than its first element'
edits = [('dustgoggles/pivot.py', '            return series.loc[~series.index.duplicated()]', '            levels = list(range(series.index.nlevels))\n            return series.groupby(level=levels, sort=False).first()')]
demo = '\nimport numpy as np, pandas as pd\nfrom dustgoggles import pivot\n\ns = pd.Series([np.nan, 2.0, 3.0, 4.0], index=list("aabb"), name="s")\ngot = pivot.squeeze(s)\nassert list(got.index) == ["a", "b"]\nassert np.isnan(got["a"]) and got["b"] == 3.0, got\n'
