property = 'D02'
needs = 'reloading a dynamic function whose source was changed'
what = 'the old function stays although the new source is compiled'
edits = [('dustgoggles/dynamic.py', "        self.func = define(self.code, self.globals_)\n", "        self.func = self.func or define(self.code, self.globals_)\n")]
demo = '\nfrom dustgoggles.dynamic import Dynamic\n\nd = Dynamic("def f():\\n    return 1\\n")\nassert d() == 1\nd.source = "def f():\\n    return 2\\n"\nd.load(reload=True)\nassert d() == 2\n'
