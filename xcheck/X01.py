from lib import *
import re, io, tempfile, shutil, ast
from pathlib import Path
from dustgoggles import scrape as S
RULE = "random texts and pattern sets (literal, non-literal and pathological captures, missing matches, overlapping fields, supplemental functions) and random byte heads for trimming, through paths and readers; distinct = distinct descriptions"
TMP = Path(tempfile.mkdtemp(prefix="xckX01"))
N = [0]


def teardown():
    shutil.rmtree(TMP, ignore_errors=True)


def lit(s):
    try:
        return ast.literal_eval(s)
    except (ValueError, TypeError, SyntaxError, MemoryError, RecursionError):
        return s


VALUES = ["1", "-5", "1.5", "1e400", "'q'", "\"dq\"", "abc", "2020-01-01", "(1, 2)", "(1, 2", "[1, 'a', None]", "{1: 2}", "None", "True", "0x10", "010", "1_0", "", " 3", "3 ", "\t4",
          "{[1]: 2}", "{{}}", "1 + 2j", "b'x'", "N/A", "a.b", "f(x)", "1 +", "\x01", "'", "é", "('a' 'b')", "-" * 3 + "1", "~1", "not 1", "*", "\\", "()", "{}", "...", "1,2", "(" * 300 + ")" * 300,
          "-" * 9000 + "1", "[" * 250, "9" * 5000, "1 \n", "'\\x'", "\ufeff1", "1;2", "#", "1 # c", "\x00", "a\x00", "nan", "inf", "-inf", "1e999", "\n1", "1\n", "'a", "\"\"\"", "1__0", "0777", "0b1", "set()", "{1, 2}", "{1: [2]}", "1j", "Ellipsis", "false", "NULL",
          "\r\n", " \t 5", "r'x'", "f'x'", "f'{1}'", "u'x'", "b'\\xff'", "(1,)", "1,", "-'x'", "+1", "--1", "1-1", "[1]*2", "__import__", "x=1", "lambda: 1", "'" + "y" * 70000 + "'", "z" * 70000,
          "٣", "1\u00a0", "\u2028", "\ud800", "[" * 99 + "]" * 99, "0" * 5, "00", "-0", "1.", ".5", "'" * 3, "None ", "True,False"]
FIELDS = ["A", "B", "C", "LINES", "A B"]


def run_case(desc):
    kind = desc[0]
    if kind == "scrape":
        _, lines, pats, supp = desc
        text = "".join(f"{k} = <{v}>\n" for k, v in lines)
        regex = {}
        for name, (key, form) in pats:
            p = [rf"{re.escape(key)} = <(.*?)>\n", rf"{re.escape(key)} = (<.*>)?", rf"(nothing {re.escape(key)})", rf"{re.escape(key)} = <(?P<v>[^>]*)>"][form]
            regex[name] = re.compile(p, re.DOTALL) if form == 0 else p
        want = {}
        for name, p in regex.items():
            m = re.search(p, text)
            want[name] = None if m is None else (m.group(1) if m.group(1) is None else lit(m.group(1)))
        calls = []

        def extra(label, t):
            calls.append((label, t))
            return dict(supp)
        before = dict(regex)
        if supp is None:
            got = S.scrape_patterns("lbl", regex, label_loader=lambda _: text)
        else:
            got = S.scrape_patterns("lbl", regex, extra, label_loader=lambda _: text)
            want = want | dict(supp)
            check(calls == [("lbl", text)], "supplemental function calls", len(calls))
        check(list(regex) == list(before), "patterns changed")
        check(set(got) == set(want), "fields", list(got), list(want))
        for k in want:
            check(type(got[k]) is type(want[k]) and (got[k] == want[k] or repr(got[k]) == repr(want[k])), "field", repr(k), "got", repr(got[k])[:200], "expected", repr(want[k])[:200])
        sc = S.make_scraper(text)
        for n in reversed(list(regex)):
            if n in dict(supp or ()):
                continue
            g = sc(regex[n])
            check(type(g) is type(want[n]) and (g == want[n] or repr(g) == repr(want[n])), "scraper", n)
        recs = S.bulk_scrape_metadata(iter(["f1", "f2", "f3"]), lambda f: {"f": f, **want})
        check([r["f"] for r in recs] == ["f1", "f2", "f3"], "bulk")
    elif kind == "files":
        recs = [{"a": 1}, None, {}, {"a": 1}, 0, []]
        seen = []

        def one(f):
            seen.append(f)
            return recs[f % 6]
        for n in (0, 1, 6, 400):
            seen.clear()
            got = S.bulk_scrape_metadata(range(n), one)
            check(seen == list(range(n)) and len(got) == n and all(g is recs[i % 6] for i, g in enumerate(got)), "bulk", n)
        check(S.bulk_scrape_metadata(["x", "x", "x"], lambda f: [f]) == [["x"]] * 3, "the same file again")
        try:
            for i, text in enumerate(("A = 1\nB = 'x'\nC = 2020-01-01\n", "A = 5\n", "")):
                N[0] += 1
                q = TMP / f"lbl{N[0]}"
                q.write_bytes(text.encode() + b"END\r\n Q = 9\n")
                want = {"a": [1, 5, None][i], "c": ["2020-01-01", None, None][i], "b": ["x", None, None][i]}
                pats = {"a": r"A = (.*)", "c": re.compile(r"C = (.*)"), "b": r"B = (.*)"}
                for lbl in (q, str(q)):
                    for _ in range(2):
                        check(S.scrape_patterns(lbl, pats) == want, "scraping a file", lbl, S.scrape_patterns(lbl, pats), "expected", want)
                check(S.scrape_patterns(q, pats, lambda l, t: {"a": len(t), "l": l == q}) == want | {"a": len(text) + 12, "l": True}, "supplement of a file")
        finally:
            for q in TMP.glob("lbl*"):
                q.unlink()
    else:
        _, data, size, raise_, how = desc
        head = data[:size] if size is not None else data[:500 * 1024]
        i, j = head.find(b"END\r\n"), head.find(b"\x00\x00\x00")
        if i >= 0:
            want = head[:i + 5].decode()
        elif j >= 0:
            want = head[:j + 3].decode()
        else:
            want = ValueError if raise_ else head.decode()
        N[0] += 1
        p = TMP / f"f{N[0]}"
        read = []
        try:
            if how == "reader":
                class R(io.BytesIO):
                    def read(self, n=-1):
                        read.append(n)
                        return super().read(n)
                src = R(data)
            else:
                p.write_bytes(data)
                src = p if how == "path" else str(p)
            kw = {} if size is None else {"max_size": size}
            try:
                got = S.trim_label(src, raise_for_failure=raise_, **kw)
            except ValueError as e:
                if want is not ValueError:
                    raise
                got = ValueError
            check(got == want, "got", repr(got)[-80:], "expected", repr(want)[-80:])
            lim = 500 * 1024 if size is None else size
            check(all(0 <= n <= lim for n in read) and sum(read) <= lim, "looked beyond the limit", read)
        finally:
            p.unlink(missing_ok=True)


def cases(rng, tier):
    for v in VALUES:
        yield ("scrape", [("A", v)], [("x", ("A", 0)), ("y", ("A", 1))], None)
        yield ("scrape", [("B", "0"), ("A", v), ("A", "second"), ("C", v)], [(0, ("A", 0)), ("", ("B", 0)), (None, ("C", 3)), ("q", ("A", 3))], [("q", None)])
    many = [(f"K{i}x", VALUES[i % 50]) for i in range(260)]
    yield ("scrape", many, [(f"f{i}", (f"K{i}x", i % 4)) for i in range(0, 260, 3)] + [("none", ("K999x", 0))], None)
    yield ("scrape", [("A", "pad" * 30000), ("B", "7")], [("a", ("A", 0)), ("b", ("B", 0)), ("c", ("C", 0))], [("d", [])])
    yield ("scrape", [], [], [])
    yield ("scrape", [("A", "1")], [], [("z", 0)])
    yield ("scrape", [("A", "1")], [("x", ("A", 0))], [])
    yield ("files", None)
    for _ in range(500 if tier == "quick" else 6000):
        lines = [(rng.choice(FIELDS), rng.choice(VALUES)) for _ in range(rng.randint(0, 6))]
        pats = [(rng.choice(["p", "q", "r", "s", 0, None]), (rng.choice(FIELDS), rng.randrange(4))) for _ in range(rng.randint(0, 5))]
        supp = None if rng.random() < .5 else [(rng.choice(["p", "q", "z"]), rng.choice([1, None, "s"])) for _ in range(rng.randint(0, 3))]
        yield ("scrape", lines, pats, supp)
    bits = [b"END\r\n", b"END\n", b"\x00", b"\x00\x00\x00", b"\x00\x00", b"A = 1\r\n", b"END_OBJECT\r\n", b"BLEND\r\n", "é".encode(), b"\xff\xfe", b"END", b"\r\n", b"end\r\n", b"\x00" * 7, b"x" * 50, b"END\r", b"\n"]
    for _ in range(1500 if tier == "quick" else 15000):
        data = b"".join(rng.choice(bits) for _ in range(rng.randint(0, 9)))
        size = rng.choice([None, None, 0, 1, 5, 10, 30, 100, len(data), max(len(data) - 1, 0)])
        h = data if size is None else data[:size]
        i, j = h.find(b"END\r\n"), h.find(b"\x00\x00\x00")
        raising = rng.random() < .5
        try:
            h[:i + 5 if i >= 0 else j + 3 if j >= 0 else 0 if raising else None].decode()
        except UnicodeDecodeError:
            continue
        yield ("trim", data, size, raising, rng.choice(["path", "str", "reader"]))
    for end in (b"END\r\n", b"\x00\x00\x00", b""):
        for n in (35592 - 5, 35592, 65536 - 3, 65536, 70000, 511995, 511997):
            for how in ("path", "reader"):
                yield ("trim", b"y" * n + end + b"z" * 600, None, False, how)
                yield ("trim", b"y" * n + end + b"\x00\x00\x00\x00", 600000, True, how)
    yield ("trim", b"x" * 511990 + b"END\r\nmore" + b"y" * 2000, None, True, "path")
    yield ("trim", b"x" * 511996 + b"END\r\nmore" + b"y" * 2000, None, False, "path")
    yield ("trim", b"x" * 511996 + b"END\r\nmore" + b"y" * 2000, None, True, "path")
