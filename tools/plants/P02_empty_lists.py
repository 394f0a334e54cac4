property = 'P02'
needs = 'a nested cell that is an empty list or tuple'
what = 'unpack drops rows whose list is empty together with the missing ones, so their row and label are gone'
edits = [('dustgoggles/pivot.py', '    dropped = series.dropna()\n    df = pd.DataFrame(', '    dropped = series[series.map(lambda x: isinstance(x, (list, tuple)) and len(x) > 0)]\n    df = pd.DataFrame(')]
demo = '\nimport numpy as np, pandas as pd\nfrom dustgoggles import pivot\n\ns = pd.Series([[1, 2], [], None, [3, 4]], index=list("wxyz"), name="s")\ngot = pivot.unpack(s)\nassert list(got.index) == ["w", "x", "z"], list(got.index)\nassert got.loc["z", "s_1"] == 4\n'
