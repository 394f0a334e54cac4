property="X01"
needs="a supplemental function that returns a field also matched by a pattern"
what="pattern results override the supplemental function's fields"
edits=[("dustgoggles/scrape.py","        metadata |= supplemental_search_function(label, label_text)","        metadata = (\n            supplemental_search_function(label, label_text) | metadata\n        )")]
demo='''
from dustgoggles.scrape import scrape_patterns
out = scrape_patterns("l", {"a": "a=(.)"}, lambda l, t: {"a": "sup"}, lambda l: "a=1")
assert out == {"a": "sup"}, out
'''
