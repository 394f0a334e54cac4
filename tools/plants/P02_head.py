property = 'P02'
needs = 'a column whose first thousand present values agree and a later one differs'
what = 'extract_constants looks at the first 1000 values only: a column that varies later is reported as constant and dropped from the variables'
edits = [('dustgoggles/pivot.py', '            if (len(series) == 0) or (series == series.iloc[0]).all():', '            head = series.iloc[:1000]  # enough to tell\n            if (len(series) == 0) or (head == head.iloc[0]).all():')]
demo = '\nimport numpy as np, pandas as pd\nfrom dustgoggles import pivot\n\ndf = pd.DataFrame({"a": [1] * 1500 + [2], "b": range(1501), "c": "x"})\nconsts, rest = pivot.extract_constants(df, drop_constants=True)\nassert consts == {"c": "x"}, consts\nassert list(rest) == ["a", "b"], list(rest)\n'
