"""Mechanical instrumentation of the repository's current source.

The text that is verified is the text that runs: each module is parsed from /repo on every run and
only the operations CPython does not let an object intercept are routed through hooks.  Everything
else (control flow, closures, classes, generators, exceptions, scoping) is executed by CPython.

 f(a, *b, **c)            -> __dv_call(f, (..), {..})         (all calls)
 [..] {..} comprehensions -> boxes with symbolic contents
 for x in it              -> for x in __dv_iter(it)
 a is b, a in b, a == b   -> hooks returning symbolic truth values
 not a                    -> hook
 except T as e            -> decided lazily by __dv_match
 o.a = v                  -> __dv_setattr
 f"..."                   -> __dv_fstr
 def f(*args, **kwargs)   -> symbolic argument sequences unpacked at entry
 class C(Base)            -> __dv_base(Base)
Dropped: annotations (never evaluated), docstrings kept, `if TYPE_CHECKING` untouched.
"""
import ast


def _n(name):
    return ast.Name(name, ast.Load())


def _call(name, *args):
    # a trailing __ keeps private-name mangling away inside class bodies
    return ast.Call(_n(name + "__" if name.startswith("__dv_") else name), list(args), [])


CMP = {ast.Is: "is", ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin", ast.Eq: "eq", ast.NotEq: "ne",
       ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    # -- functions
    def _fn(self, node):
        node.returns = None
        a = node.args
        for arg in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
            arg.annotation = None
        self.generic_visit(node)
        pre = []
        if a.vararg:
            pre.append(ast.Assign([ast.Name(a.vararg.arg, ast.Store())], _call("__dv_unstar", _n(a.vararg.arg))))
        if a.kwarg:
            pre.append(ast.Assign([ast.Name(a.kwarg.arg, ast.Store())], _call("__dv_unkw", _n(a.kwarg.arg))))
        doc = []
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            doc = [node.body.pop(0)]
        node.body = doc + pre + node.body
        if not node.body:
            node.body = [ast.Pass()]
        return node

    visit_FunctionDef = _fn

    visit_AsyncFunctionDef = _fn

    def visit_Lambda(self, node):
        self.generic_visit(node)
        a = node.args
        if a.vararg or a.kwarg:
            # (lambda *a: body)  ->  lambda *a: (lambda a: body)(__dv_unstar(a))
            names = [(x.arg, h) for x, h in ((a.vararg, "__dv_unstar"), (a.kwarg, "__dv_unkw")) if x]
            inner = ast.Lambda(ast.arguments([], [ast.arg(n) for n, _ in names], None, [], [], None, []), node.body)
            node.body = ast.Call(inner, [_call(h, _n(n)) for n, h in names], [])
        return node

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        node.bases = [_call("__dv_base", b) for b in node.bases]
        return node

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        if node.value is None:
            return ast.Pass()
        return self._setter(ast.Assign([node.target], node.value))

    # -- calls
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals") and not node.args:
            if node.func.id == "locals":
                return node
            return node
        self.generic_visit(node)
        args = ast.Tuple([_call("__dv_star", a.value) if isinstance(a, ast.Starred) else a for a in node.args], ast.Load())
        kws = ast.Tuple([ast.Tuple([ast.Constant(k.arg), k.value], ast.Load()) for k in node.keywords], ast.Load())
        return ast.Call(_n("__dv_call__"), [node.func, args, kws], [])

    # -- displays
    def _elts(self, node):
        return ast.Tuple([_call("__dv_star", e.value) if isinstance(e, ast.Starred) else e for e in node.elts], ast.Load())

    def visit_List(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        return _call("__dv_list", self._elts(node))

    def visit_Tuple(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in node.elts):
            return _call("__dv_tuple", self._elts(node))
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return _call("__dv_set", self._elts(node))

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = [_call("__dv_star", v) if k is None else ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)]
        return _call("__dv_dict", ast.Tuple(pairs, ast.Load()))

    def _gens(self, node):
        for g in node.generators:
            g.iter = _call("__dv_iter", g.iter)

    def visit_ListComp(self, node):
        self.generic_visit(node)
        self._gens(node)
        return _call("__dv_listof", ast.GeneratorExp(node.elt, node.generators))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        self._gens(node)
        return _call("__dv_setof", ast.GeneratorExp(node.elt, node.generators))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        self._gens(node)
        return _call("__dv_dictof", ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators))

    def visit_GeneratorExp(self, node):
        self.generic_visit(node)
        self._gens(node)
        return node

    # -- loops
    def visit_For(self, node):
        names = sorted({x.id for x in ast.walk(node) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
                       | {x.name for x in ast.walk(node) if isinstance(x, (ast.ExceptHandler, ast.FunctionDef, ast.ClassDef)) and x.name})
        self.generic_visit(node)
        node.iter = _call("__dv_iter", node.iter, ast.Tuple([ast.Constant(n) for n in names], ast.Load()))
        return node

    def visit_While(self, node):
        """while c: body  ->  a search over the number of the iteration, once c is not decided by what is known"""
        self.generic_visit(node)
        pure = not any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Call) and not (
            isinstance(x.func, ast.Name) and x.func.id in ("__dv_cmp__", "__dv_not__")) for x in ast.walk(node.test))
        if node.orelse or isinstance(node.test, ast.Constant) or not pure:
            return node
        self.n += 1
        w, p = f"__dv_w{self.n}__", f"__dv_p{self.n}__"
        import copy
        note = ast.Expr(ast.Call(ast.Attribute(_n(w), "note", ast.Load()), [node.test], []))
        body = [ast.If(_n(p), [note, ast.Continue()], []), ast.If(_call("__dv_not", copy.deepcopy(node.test)), [ast.Break()], [])] + node.body
        return [ast.Assign([ast.Name(w, ast.Store())], _call("__dv_while")), ast.For(ast.Name(p, ast.Store()), _n(w), body, [])]

    def visit_YieldFrom(self, node):
        self.generic_visit(node)
        node.value = _call("__dv_iter", node.value)
        return node

    # -- operators
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            return _call("__dv_cmp", ast.Constant(CMP[type(node.ops[0])]), node.left, node.comparators[0])
        # a < b < c: evaluate through temporaries
        self.n += 1
        parts, left = [], node.left
        for k, (op, right) in enumerate(zip(node.ops, node.comparators)):
            name = f"__dv_t{self.n}_{k}__"
            parts.append(_call("__dv_cmp", ast.Constant(CMP[type(op)]), left, ast.NamedExpr(ast.Name(name, ast.Store()), right)))
            left = _n(name)
        return ast.BoolOp(ast.And(), parts)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return _call("__dv_not", node.operand)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(None)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return _call("__dv_fstr", ast.Tuple(parts, ast.Load()))

    # -- stores
    def visit_Global(self, node):
        return [node, ast.Expr(_call("__dv_shared"))]

    visit_Nonlocal = visit_Global

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            out.append(ast.Expr(_call("__dv_delitem", t.value, self._slice(t.slice))) if isinstance(t, ast.Subscript) else ast.Delete([t]))
        return out

    def _setter(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.Expr(_call("__dv_setitem", node.value, t.value, self._slice(t.slice)))
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Attribute):
            t = node.targets[0]
            return ast.Expr(_call("__dv_setattr", t.value, ast.Constant(t.attr), node.value))
        if any(isinstance(x, ast.Attribute) for t in node.targets for x in ast.walk(t) if isinstance(getattr(x, "ctx", None), ast.Store)):
            # several targets: evaluate once, then store one by one
            self.n += 1
            tmp = f"__dv_t{self.n}__"
            out = [ast.Assign([ast.Name(tmp, ast.Store())], node.value)]
            for t in node.targets:
                out += self._unpack(t, _n(tmp))
            return out
        return node

    def _unpack(self, t, value):
        if isinstance(t, ast.Attribute):
            return [ast.Expr(_call("__dv_setattr", t.value, ast.Constant(t.attr), value))]
        if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in t.elts):
            names = []
            for _ in t.elts:
                self.n += 1
                names.append(f"__dv_t{self.n}__")
            out = [ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())], value)]
            for n, e in zip(names, t.elts):
                out += self._unpack(e, _n(n))
            return out
        return [ast.Assign([t], value)]

    def visit_Assign(self, node):
        self.generic_visit(node)
        return self._setter(node)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        t = node.target
        op = ast.Constant(type(node.op).__name__)
        if isinstance(t, ast.Attribute):
            return ast.Expr(_call("__dv_augattr", t.value, ast.Constant(t.attr), op, node.value))
        if isinstance(t, ast.Name):
            return ast.Assign([ast.Name(t.id, ast.Store())], _call("__dv_aug", op, _n(t.id), node.value))
        if isinstance(t, ast.Subscript):
            return ast.Expr(_call("__dv_augitem", t.value, self._slice(t.slice), op, node.value))
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        return _call("__dv_getitem", node.value, self._slice(node.slice))

    def _slice(self, k):
        none = ast.Constant(None)
        if isinstance(k, ast.Slice):
            return _call("__dv_slice", k.lower or none, k.upper or none, k.step or none)
        if isinstance(k, ast.Tuple):
            return ast.Tuple([self._slice(e) for e in k.elts], ast.Load())
        return k

    # -- exceptions
    def visit_With(self, node):
        self.generic_visit(node)
        for item in node.items:
            item.context_expr = _call("__dv_with", item.context_expr)
        return node

    def visit_Try(self, node):
        self.generic_visit(node)
        out = node
        if node.finalbody:
            # a finally block belongs to the program: it does not run when the engine abandons an execution
            self.n += 1
            gone, ex = f"__dv_gone{self.n}__", f"__dv_e{self.n}__"
            inner = [ast.Try(node.body, node.handlers, node.orelse, [])] if node.handlers else node.body + node.orelse
            handler = ast.ExceptHandler(_n("BaseException"), ex, [ast.Assign([ast.Name(gone, ast.Store())], _call("__dv_engine_exc", _n(ex))), ast.Raise(None, None)])
            fin = ast.If(ast.UnaryOp(ast.Not(), _n(gone)), node.finalbody, [])
            out = [ast.Assign([ast.Name(gone, ast.Store())], ast.Constant(False)), ast.Try(inner, [handler], [], [fin])]
            node = inner[0] if node.handlers else None
        if node is None or not node.handlers:
            return out
        self.n += 1
        ex = f"__dv_e{self.n}__"
        chain = [ast.Raise(None, None)]
        for h in reversed(node.handlers):
            body = list(h.body)
            if h.name:
                body = [ast.Assign([ast.Name(h.name, ast.Store())], _n(ex))] + body
            test = _call("__dv_match", _n(ex), h.type if h.type is not None else _n("BaseException"))
            chain = [ast.If(test, body, chain)]
        node.handlers = [ast.ExceptHandler(_n("BaseException"), ex, chain)]
        return out

    def visit_Raise(self, node):
        self.generic_visit(node)
        if node.exc is not None:
            node.exc = _call("__dv_exc", node.exc)
        return node


def instrument(source, filename):
    tree = ast.parse(source, filename)
    # keep "from __future__" etc. untouched; rewrite everything
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)
