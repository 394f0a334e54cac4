property='F01'
needs='an iterable with an element that occurs twice'
what='the second occurrence is not listed'
edits=[('dustgoggles/func.py', '        [file for file in this_set if file not in shared] for this_set in sets\n', '        [file for file in dict.fromkeys(this_set) if file not in shared]\n        for this_set in sets\n')]
demo='\nfrom dustgoggles.func import disjoint\nassert disjoint([1, 1, 2], [2]) == [[1, 1], []], disjoint([1, 1, 2], [2])\n'
