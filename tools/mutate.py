"""python3 tools/mutate.py PID [--max N]: mutates the functions a proof covers and reports mutants the prover still accepts,
with what the concrete check says about each.  An accepted mutant that the concrete check fails is a soundness bug."""
import ast, copy, json, os, subprocess, sys, tempfile, shutil, random, concurrent.futures as cf

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
        ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def mutants(fn):
    """(description, mutated copy) of a function definition"""
    nodes = list(ast.walk(fn))
    for n, node in enumerate(nodes):
        def go(desc, change):
            c = copy.deepcopy(fn)
            t = list(ast.walk(c))[n]
            if change(t, c) is False:
                return
            ast.fix_missing_locations(c)
            yield (f"{getattr(node, 'lineno', '?')}: {desc} [{ast.unparse(node)[:60]}]", c)
        if isinstance(node, ast.Compare):
            for k, op in enumerate(node.ops):
                yield from go("cmp", lambda t, c, k=k, op=op: t.ops.__setitem__(k, SWAP[type(op)]()))
        if isinstance(node, ast.If) or isinstance(node, ast.IfExp) or isinstance(node, ast.While):
            yield from go("negate", lambda t, c: setattr(t, "test", ast.UnaryOp(ast.Not(), t.test)))
            yield from go("true", lambda t, c: setattr(t, "test", ast.Constant(True)))
            yield from go("false", lambda t, c: setattr(t, "test", ast.Constant(False)))
        if isinstance(node, ast.comprehension) and node.ifs:
            yield from go("drop filter", lambda t, c: setattr(t, "ifs", []))
        if isinstance(node, ast.BoolOp):
            yield from go("boolop", lambda t, c: setattr(t, "op", ast.Or() if isinstance(t.op, ast.And) else ast.And()))
        if isinstance(node, ast.Constant) and not isinstance(node.value, str) and node.value is not Ellipsis:
            v = node.value
            new = (not v) if isinstance(v, bool) else 1 if v is None else v + 1 if isinstance(v, (int, float)) else v
            yield from go("const", lambda t, c: setattr(t, "value", new))
        if isinstance(node, ast.Constant) and isinstance(node.value, str) and not (fn.body and isinstance(fn.body[0], ast.Expr) and fn.body[0].value is node):
            yield from go("str", lambda t, c: setattr(t, "value", t.value + "x"))
        if isinstance(node, ast.Call):
            if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args[:2]):
                def sw(t, c):
                    t.args[0], t.args[1] = t.args[1], t.args[0]
                yield from go("swap args", sw)
            if node.keywords:
                yield from go("drop keyword", lambda t, c: setattr(t, "keywords", t.keywords[1:]))
            if len(node.args) >= 1:
                yield from go("drop last arg", lambda t, c: setattr(t, "args", t.args[:-1]))
        if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
            yield from go("binop", lambda t, c: setattr(t, "op", ast.Sub() if isinstance(t.op, ast.Add) else ast.Add()))
        if isinstance(node, ast.BinOp):
            def swb(t, c):
                t.left, t.right = t.right, t.left
            yield from go("swap operands", swb)
        if isinstance(node, ast.Return) and node.value is not None:
            yield from go("return None", lambda t, c: setattr(t, "value", ast.Constant(None)))
        if isinstance(node, ast.Tuple) and len(node.elts) == 2 and isinstance(node.ctx, ast.Load):
            yield from go("swap tuple", lambda t, c: t.elts.reverse())
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield from go("drop not", lambda t, c: setattr(t, "op", ast.UAdd()) or setattr(t, "operand", ast.Call(ast.Name("bool", ast.Load()), [t.operand], [])))
        for field in ("body", "orelse", "finalbody"):
            b = getattr(node, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.Pass,)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    yield from go(f"delete <{ast.unparse(s)[:50]}>", lambda t, c, k=k, field=field: getattr(t, field).__setitem__(k, ast.Pass()))
                    if k + 1 < len(b) and field == "body":
                        def swap(t, c, k=k):
                            t.body[k], t.body[k + 1] = t.body[k + 1], t.body[k]
                        yield from go(f"swap with next <{ast.unparse(s)[:40]}>", swap)
                    if isinstance(s, ast.Continue):
                        yield from go("continue->break", lambda t, c, k=k, field=field: getattr(t, field).__setitem__(k, ast.Break()))
                    if isinstance(s, ast.Break):
                        yield from go("break->continue", lambda t, c, k=k, field=field: getattr(t, field).__setitem__(k, ast.Continue()))


def find(tree, qual):
    parts = [p for p in qual.split(".") if p != "<locals>"]
    node = tree
    for p in parts:
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)) and ch.name == p:
                node = ch
                break
        else:
            return None
    return node if isinstance(node, ast.FunctionDef) else None


def build(repo, rel, src, fn, new):
    lines = src.split("\n")
    start = min([fn.lineno] + [d.lineno for d in fn.decorator_list]) - 1
    text = ast.unparse(new).split("\n")
    text = [" " * fn.col_offset + t if t else t for t in text]
    return "\n".join(lines[:start] + text + lines[fn.end_lineno:])


def try_one(pid, rel, desc, text):
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo/dustgoggles", d + "/dustgoggles")
        with open(os.path.join(d, rel), "w") as f:
            f.write(text)
        out = d + "/o.json"
        if "--gap" in sys.argv:
            # only what the tests and the concrete check let through is worth proving
            t = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "dustgoggles"], cwd=d, capture_output=True, text=True,
                               env=dict(os.environ, PYTHONPATH=d), timeout=100) if not shutil.os.environ.get("NOTESTS") else None
            if t is not None and t.returncode != 0:
                return "tests", "-", desc
            try:
                q = subprocess.run(["/opt/venv/bin/python", "-B", "xcheck/run.py", pid, "--repo", d, "--seed", "1", "--tier", "quick", "--out", d + "/x.json", "--budget", "45"],
                                   cwd=HERE, capture_output=True, text=True, timeout=200)
                if q.returncode == 1:
                    return "xcheck", "KILLED", desc
            except subprocess.TimeoutExpired:
                return "xcheck", "timeout", desc
        try:
            subprocess.run(["python3-vt", "-B", "-m", "pydv.prove", pid, "--repo", d, "--out", out, "--budget", "60"], cwd=HERE, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=200)
            r = json.load(open(out))
            bad = [o for o in r["obligations"] if o["status"] != "discharged"]
            st = "proved" if r["obligations"] and not bad else "refuted" if any(o["status"] == "refuted" for o in bad) else "alarm" if any({"sat", "shape"} & set(o.get("kinds") or []) for o in bad) else "undecided"
        except Exception as ex:
            st = f"undecided ({type(ex).__name__})"
        x = "-"
        if "--gap" not in sys.argv and (st == "proved" or "--all" in sys.argv or st == "refuted"):
            try:
                q = subprocess.run(["python3", "check.py", pid, "--repo", d, "--no-proof"], cwd=HERE, capture_output=True, text=True, timeout=300)
                x = "KILLED" if q.returncode == 1 else "passes" if q.returncode == 0 else f"rc{q.returncode}"
            except subprocess.TimeoutExpired:
                x = "timeout"
        return st, x, desc
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    pid = sys.argv[1]
    cap = int(sys.argv[sys.argv.index("--max") + 1]) if "--max" in sys.argv else 200
    out = f"/tmp/mut.{pid}.json"
    subprocess.run(["python3-vt", "-B", "-m", "pydv.prove", pid, "--out", out], cwd=HERE, stdout=subprocess.DEVNULL)
    fns = json.load(open(out))["functions"]
    jobs, seen = [], set()
    for f in fns:
        rel, qual = f.rsplit(":", 1)
        qual = qual.split(".<locals>")[0]
        if (rel, qual) in seen:
            continue
        seen.add((rel, qual))
        src = open("/repo/" + rel).read()
        fn = find(ast.parse(src), qual)
        if fn is None:
            continue
        for desc, new in mutants(fn):
            try:
                text = build("/repo", rel, src, fn, new)
                ast.parse(text)
            except SyntaxError:
                continue
            jobs.append((rel, f"{qual} {desc}", text))
    random.Random(1).shuffle(jobs)
    total = len(jobs)
    jobs = jobs[:cap]
    tally = {}
    with cf.ThreadPoolExecutor(int(os.environ.get("W", "7"))) as ex:
        for st, x, desc in ex.map(lambda j: try_one(pid, j[0], j[1], j[2]), jobs):
            tally[st] = tally.get(st, 0) + 1
            if "--gap" in sys.argv:
                if st not in ("tests", "xcheck"):
                    print("GAP", st, desc, flush=True)
            elif st == "proved":
                print("UNSOUND" if x == "KILLED" else "accepted", x, desc, flush=True)
            elif st == "refuted" and x == "passes":
                print("refuted-but-passes", desc, flush=True)
            elif x == "passes":
                print("xcheck-passes", st, desc, flush=True)
    print(pid, "mutants", len(jobs), "of", total, tally)


main()
