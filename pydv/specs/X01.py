"""X01: label scraping finds, types and bounds text without failing.

Regular expressions, literal_eval and files are outside (pydv/standins.py): a search is a function of pattern and text (exact for
patterns that are a fixed text, as the label endings are), literal_eval gives a value or one of its documented failures."""
import re
from ast import literal_eval
scrape = load("dustgoggles.scrape")
ASSUMES = ["literal_eval fails only in the ways its documentation lists", "a match of a pattern with one group has that group's text",
           "the supplemental function returns a mapping"]


def scraped(text, pattern):
    match = re.search(pattern, text)
    if match is None:
        return None
    captured = match.group(1)
    got = outcome(lambda: literal_eval(captured))
    if got[0] == "ok":
        return got[1]
    return captured


def ob_one_field():
    pure()
    has_attributes("group")
    text, pattern = val("text"), val("pattern")
    want = scraped(text, pattern)
    got = outcome(lambda: scrape.make_scraper(text)(pattern))
    ensure_outcome("scrape.literal_or_text_or_none", got, ("ok", want))


def ob_scraper_reused():
    """one scraper, two patterns: neither affects the other"""
    pure()
    has_attributes("group")
    text, p, q = val("text"), val("p"), val("q")
    want = scraped(text, p), scraped(text, q), scraped(text, p)
    s = scrape.make_scraper(text)
    got = outcome(lambda: (s(p), s(q), s(p)))
    ensure_outcome("scrape.searches_are_independent", got, ("ok", want))


def scraper_of(text):
    def field(pattern):
        return uf_val("scraped", text, pattern)
    return field


def fields(supplement):
    effects(raises=True)
    contract(scrape.make_scraper, scraper_of, unfold=0)
    label, patterns, loader = val("label"), dct("patterns"), callable_("loader")
    before = patterns.copy()
    w0 = world()

    def reference():
        text = loader(label)
        out = {f: uf_val("scraped", text, p) for f, p in patterns.items()}
        if supplement is not None:
            out = out | supplement(label, text)
        return out
    want = outcome(reference)
    w1 = world()
    set_world(w0)
    got = outcome(lambda: scrape.scrape_patterns(label, patterns, supplement, loader))
    ensure_outcome("patterns.each_field_its_own_then_supplements", got, want)
    ensure_world("patterns.loads_once_then_supplements", world(), w1)
    ensure_same("patterns.arguments_unchanged", patterns, before)


def ob_fields():
    fields(None)


def ob_fields_supplemented():
    fields(mapping("supplement_result") and callable_("supplement"))


def ob_bulk():
    effects(raises=True)
    files, one = lst("files"), callable_("one")
    w0 = world()

    def reference():
        out = []
        for f in files:
            out.append(one(f))
        return out
    want = outcome(reference)
    w1 = world()
    set_world(w0)
    got = outcome(lambda: scrape.bulk_scrape_metadata(files, one))
    ensure_outcome("bulk.each_file_once_in_order", got, want)
    ensure_world("bulk.calls", world(), w1)


class Head:
    def read(self):
        return bytes_("head")


def head_of(fn, n):
    obj("head_file")(fn, n)
    return Head()


def trimmed(head, strict):
    pvl = head.find(b"END\r\n")
    if pvl >= 0:
        return head[:pvl + 5].decode()
    nulls = head.find(b"\x00\x00\x00")
    if nulls >= 0:
        return head[:nulls + 3].decode()
    if strict:
        raise ValueError("couldn't find a label ending")
    return head.decode()


def trim(*args, **how):
    effects(raises=True)
    contract(scrape.head_file, head_of, unfold=0)
    fn, limit = val("fn"), scrape.MAX_LABEL_SIZE
    if len(args) > 0:
        limit = args[0]
    w0 = world()

    def reference():
        head = head_of(fn, limit).read()
        return trimmed(head, how.get("raise_for_failure", False))
    want = outcome(reference)
    w1 = world()
    set_world(w0)
    got = outcome(lambda: scrape.trim_label(fn, *args, **how))
    if got[0] == "raised" and want[0] == "raised":
        ensure("trim.same_kind_of_failure", type(got[1]) is type(want[1]))
    else:
        ensure_outcome("trim.text_up_to_the_end", got, want)
    ensure_world("trim.looks_at_the_head_only", world(), w1)


def ob_trim():
    trim(val("limit"))


def ob_trim_strict():
    trim(val("limit"), raise_for_failure=True)


def ob_trim_default_limit():
    trim()
    ensure_same("trim.default_limit", scrape.MAX_LABEL_SIZE, 500 * 1024)


def head(reader):
    effects(raises=True)
    fn, n = obj("fn"), val("n")
    assume(("read" in dir(fn)) is reader)
    has_attributes("read")
    w0 = world()

    def reference():
        r = fn if reader else open(fn, "rb")
        data = r.read(n)
        r.close()
        return data
    want = outcome(reference)
    w1 = world()
    set_world(w0)
    got = outcome(lambda: scrape.head_file(fn, n).read())
    ensure_outcome("head.exactly_what_was_read", got, want)
    ensure_world("head.reads_once_up_to_the_limit_and_closes", world(), w1)


def ob_head_of_a_reader():
    head(True)


def ob_head_of_a_path():
    head(False)
