property = 'F02'
needs = 'an argument-limiting wrapper given one sequence that is neither a list nor a tuple'
what = 'such a sequence is passed whole instead of being unpacked and cut'
edits = [('dustgoggles/func.py', "        if (len(args) == 1) and (unpack is True):\n", "        if (\n            (len(args) == 1) and (unpack is True)\n            and isinstance(args[0], (list, tuple))\n        ):\n")]
demo = '\nfrom dustgoggles.func import argstop\n\nassert argstop(lambda *a: a, 2)([1, 2, 3]) == (1, 2)\nassert argstop(lambda *a: a, 2)(range(5)) == (0, 1)\n'
