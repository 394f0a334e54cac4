property = 'P02'
needs = 'row labels that repeat, one of them on both sides of the split'
what = 'split_on takes the rest by dropping labels: rows that share a label with a selected row are in neither part'
edits = [('dustgoggles/pivot.py', '    return df.loc[predicate], df.loc[~predicate]', '    chosen = df.loc[predicate]\n    return chosen, df.drop(index=chosen.index)')]
demo = '\nimport numpy as np, pandas as pd\nfrom dustgoggles import pivot\n\ndf = pd.DataFrame({"a": [1, 2, 3]}, index=["x", "x", "y"])\nyes, no = pivot.split_on(df, df["a"] > 1)\nassert list(yes["a"]) == [2, 3]\nassert list(no["a"]) == [1], list(no["a"])\n'
