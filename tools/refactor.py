"""
Rewrites the whole library by transformations that keep its behaviour, one kind at a time, and runs every check on each result:
python3 tools/refactor.py [transformation ...] [-k check ...] [-o directory to keep the trees in] [-f file substring]
"""
import ast, copy, concurrent.futures, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPE = FUNC + (ast.Lambda, ast.ClassDef)
N = [0]


def fresh(p="v"):
    N[0] += 1
    return f"{p}_{N[0]}"


def blocks(node):
    for name in ("body", "orelse", "finalbody"):
        b = getattr(node, name, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield name, b
    for h in getattr(node, "handlers", []):
        yield from blocks_of(h)


def blocks_of(n):
    yield "body", n.body


def every_block(tree, fn, inside=True):
    "Replaces statement lists by fn(list), innermost first."
    for n in ast.walk(tree):
        pass
    def visit(n, infunc):
        here = infunc or isinstance(n, FUNC)
        for c in ast.iter_child_nodes(n):
            visit(c, here)
        for name in ("body", "orelse", "finalbody"):
            b = getattr(n, name, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and (here or not inside):
                setattr(n, name, fn(b))
    visit(tree, False)


def functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, FUNC)]


def own_nodes(f):
    "nodes of a function without nested scopes' inner nodes"
    out = []
    st = list(f.body)
    while st:
        n = st.pop()
        out.append(n)
        if not isinstance(n, SCOPE):
            st.extend(ast.iter_child_nodes(n))
    return out


def terminates(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}
        k = m.get(type(t.ops[0]))
        if k:
            return ast.Compare(t.left, [k()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def call(f, *a):
    return ast.Call(f, list(a), [])


# -- transformations


def t_unparse(tree):
    pass


def t_rename(tree):
    for f in functions(tree):
        params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs} | {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
        banned = {x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        inner = {a.arg for n in ast.walk(f) if isinstance(n, FUNC + (ast.Lambda,)) and n is not f for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
        names = {n.id for n in own_nodes(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {n.name for n in own_nodes(f) if isinstance(n, ast.ExceptHandler) and n.name}
        comp = {n.id for g in ast.walk(f) if isinstance(g, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for c in g.generators for n in ast.walk(c.target) if isinstance(n, ast.Name)}
        names = (names | comp) - params - banned - inner
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in names:
                n.id = n.id + "_"
            if isinstance(n, ast.ExceptHandler) and n.name in names:
                n.name += "_"
            if isinstance(n, ast.MatchAs) and n.name in names:
                n.name += "_"


def t_invert(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and n.orelse:
            n.test = neg(n.test)
            n.body, n.orelse = n.orelse, n.body


def t_invert_exp(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.IfExp):
            n.test = neg(n.test)
            n.body, n.orelse = n.orelse, n.body


def t_tern_to_if(tree):
    def fn(b):
        out = []
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp) and not (isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name)):
                x, y = copy.deepcopy(s), copy.deepcopy(s)
                x.value, y.value = s.value.body, s.value.orelse
                out.append(ast.If(s.value.test, [x], [y]))
            else:
                out.append(s)
        return out
    every_block(tree, fn)


def t_if_to_tern(tree):
    def fn(b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1:
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value and y.value:
                    out.append(ast.Return(ast.IfExp(s.test, x.value, y.value)))
                    continue
                if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and isinstance(x.targets[0], ast.Name) and ast.dump(x.targets[0]) == ast.dump(y.targets[0]):
                    out.append(ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value), lineno=0))
                    continue
            out.append(s)
        return out
    every_block(tree, fn)


def t_nest_rest(tree):
    def fn(b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and terminates(s.body) and b[i + 1:]:
                s.orelse = fn(b[i + 1:])
                return b[:i + 1]
        return b
    every_block(tree, fn)


def t_flatten(tree):
    def fn(b):
        out = []
        for s in b:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and terminates(s.body):
                rest, s.orelse = s.orelse, []
                out.extend(fn(rest))
        return out
    every_block(tree, fn)


def t_comp_to_loop(tree):
    def fn(b):
        out = []
        for s in b:
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(v, ast.ListComp) and not any(g.is_async for g in v.generators) and not (isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name)) and not any(isinstance(x, ast.Name) and isinstance(s, ast.Assign) and x.id == s.targets[0].id for x in ast.walk(v)):
                r = fresh("items")
                inner = [ast.Expr(call(ast.Attribute(name(r), "append", ast.Load()), v.elt))]
                for g in reversed(v.generators):
                    for c in reversed(g.ifs):
                        inner = [ast.If(c, inner, [])]
                    inner = [ast.For(g.target, g.iter, inner, [], lineno=0)]
                out.append(ast.Assign([name(r, ast.Store())], ast.List([], ast.Load()), lineno=0))
                out.extend(inner)
                s.value = name(r)
            out.append(s)
        return out
    every_block(tree, fn)


def t_loop_to_comp(tree):
    def fn(b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and out:
                x = s.body[0]
                cond = []
                while isinstance(x, ast.If) and not x.orelse and len(x.body) == 1:
                    cond.append(x.test)
                    x = x.body[0]
                p = out[-1]
                t = p.targets[0] if isinstance(p, ast.Assign) else p.target if isinstance(p, ast.AnnAssign) else None
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "append" and isinstance(x.value.func.value, ast.Name) and isinstance(t, ast.Name) and t.id == x.value.func.value.id and isinstance(p.value, ast.List) and not p.value.elts and not any(isinstance(y, (ast.Await, ast.NamedExpr)) for y in ast.walk(s)):
                    p.value = ast.ListComp(x.value.args[0], [ast.comprehension(s.target, s.iter, cond, 0)])
                    continue
            out.append(s)
        return out
    every_block(tree, fn)


def has_fstring_fmt(n):
    return any(isinstance(v, ast.FormattedValue) and v.format_spec for v in n.values)


class FStr(ast.NodeTransformer):
    def __init__(self, mode):
        self.mode = mode

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        if has_fstring_fmt(n):
            return n
        if self.mode == "format":
            text, args = "", []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    text += v.value.replace("{", "{{").replace("}", "}}")
                else:
                    text += "{" + ({114: "!r", 115: "!s"}.get(v.conversion, "")) + "}"
                    args.append(v.value)
            return ast.Call(ast.Attribute(ast.Constant(text), "format", ast.Load()), args, [])
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                parts.append(call(name("repr" if v.conversion == 114 else "str"), v.value))
        if self.mode == "join":
            return call(ast.Attribute(ast.Constant(""), "join", ast.Load()), ast.List(parts, ast.Load()))
        e = parts[0] if parts else ast.Constant("")
        for p in parts[1:]:
            e = ast.BinOp(e, ast.Add(), p)
        return e

    def visit_FormattedValue(self, n):
        return n

    def visit_arg(self, n):
        return n

    def visit_AnnAssign(self, n):
        if n.value:
            n.value = self.visit(n.value)
        return n


def t_fstr_format(tree):
    FStr("format").visit(tree)


def t_fstr_concat(tree):
    FStr("concat").visit(tree)


def t_fstr_join(tree):
    FStr("join").visit(tree)


def t_return_var(tree):
    def fn(b):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
                r = fresh("result")
                out.append(ast.Assign([name(r, ast.Store())], s.value, lineno=0))
                out.append(ast.Return(name(r)))
            else:
                out.append(s)
        return out
    every_block(tree, fn)


def simple(e):
    return isinstance(e, (ast.Constant, ast.Name, ast.Starred, ast.Lambda)) or isinstance(e, ast.Attribute) and simple(e.value)


def t_local_args(tree):
    "The arguments of the outermost call of a statement are assigned to variables first."
    def fn(b):
        out = []
        for s in b:
            v = getattr(s, "value", None)
            if isinstance(v, ast.Await):
                v = v.value
            if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and isinstance(v, ast.Call) and simple(v.func) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(v)) and not (isinstance(v.func, ast.Name) and v.func.id in ("super", "cast", "TypeVar", "isinstance")):
                for i, a in enumerate(v.args):
                    if not simple(a) and not isinstance(a, ast.GeneratorExp):
                        r = fresh("arg")
                        out.append(ast.Assign([name(r, ast.Store())], a, lineno=0))
                        v.args[i] = name(r)
                for k in v.keywords:
                    if k.arg and not simple(k.value):
                        r = fresh("arg")
                        out.append(ast.Assign([name(r, ast.Store())], k.value, lineno=0))
                        k.value = name(r)
            out.append(s)
        return out
    every_block(tree, fn)


def t_helper(tree):
    "The body of each method moves to a new method, that the method calls."
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        if any(ast.unparse(b).startswith(("Protocol", "abc.ABC", "ABC", "enum", "Enum", "NamedTuple")) for b in c.bases):
            continue
        out = []
        for f in c.body:
            out.append(f)
            if not isinstance(f, FUNC) or f.name.startswith("__") or any(ast.unparse(d).startswith(("abc.", "abstract", "staticmethod", "classmethod", "property", "override", "typing.over", "overload", "contextlib", "asynccon", "contextman", "cached", "functools")) and not ast.unparse(d) == "override" for d in f.decorator_list):
                continue
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(f)):
                continue
            if any(isinstance(x, ast.Raise) and "NotImplemented" in ast.unparse(x) for x in f.body) or f.args.vararg or f.args.kwarg:
                continue
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" and x.args for x in ast.walk(f)):
                continue
            body = f.body
            doc = []
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                doc, body = body[:1], body[1:]
            if not body or len(body) == 1 and isinstance(body[0], (ast.Pass, ast.Expr)) and ast.unparse(body[0]) in ("pass", "..."):
                continue
            g = copy.deepcopy(f)
            g.name = "_" + f.name + "_impl"
            g.decorator_list = []
            g.body = body
            g.args.defaults = []
            g.args.kw_defaults = [None] * len(g.args.kwonlyargs)
            pos = [a.arg for a in f.args.posonlyargs + f.args.args]
            # two different classes of one hierarchy must not share the helper's name
            g.name = f"_{c.name.lower()}{g.name}"
            e = ast.Call(ast.Attribute(name(pos[0]), g.name, ast.Load()), [name(a) for a in pos[1:]], [ast.keyword(a.arg, name(a.arg)) for a in f.args.kwonlyargs])
            if isinstance(f, ast.AsyncFunctionDef):
                e = ast.Await(e)
            f.body = doc + [ast.Return(e)]
            out.append(g)
        c.body = out


class InList(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) for x in n.comparators[0].elts) and simple(n.left):
            neg_ = isinstance(n.ops[0], ast.NotIn)
            return ast.BoolOp(ast.And() if neg_ else ast.Or(), [ast.Compare(n.left, [ast.NotEq() if neg_ else ast.Eq()], [x]) for x in n.comparators[0].elts])
        return n


def t_in_to_or(tree):
    InList().visit(tree)


class InTuple(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.List, ast.Tuple)):
            n.comparators = [ast.Set(n.comparators[0].elts)] if all(isinstance(x, ast.Constant) for x in n.comparators[0].elts) else n.comparators
        return n


def t_in_set(tree):
    InTuple().visit(tree)


class Swap(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in m:
            return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
        return n


def t_swap_compare(tree):
    Swap().visit(tree)


class DeMorgan(ast.NodeTransformer):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if n.values and self.boolean(n):
            return ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), [neg(v) for v in n.values]))
        return n

    def boolean(self, n):
        return all(isinstance(v, ast.Compare) or isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("isinstance", "issubclass", "is_type_enum", "any", "all") for v in n.values)


def t_demorgan(tree):
    DeMorgan().visit(tree)


def t_split_and(tree):
    def fn(b):
        for s in b:
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                inner = s.body
                for t in reversed(s.test.values[1:]):
                    inner = [ast.If(t, inner, [])]
                s.test, s.body = s.test.values[0], inner
        return b
    every_block(tree, fn)


def t_join_and(tree):
    def fn(b):
        for s in b:
            while isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
                s.test = ast.BoolOp(ast.And(), [s.test, s.body[0].test])
                s.body = s.body[0].body
        return b
    every_block(tree, fn)


def t_append_extend(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and isinstance(n.func.value, ast.Name) and n.func.value.id != "self" and len(n.args) == 1 and not n.keywords:
            n.func.attr = "extend"
            n.args = [ast.Tuple([n.args[0]], ast.Load())]


def t_append_plus(tree):
    def fn(b):
        out = []
        for s in b:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("append", "extend") and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id != "self" and len(s.value.args) == 1:
                a = s.value.args[0]
                out.append(ast.AugAssign(name(s.value.func.value.id, ast.Store()), ast.Add(), ast.List([a], ast.Load()) if s.value.func.attr == "append" else a))
            else:
                out.append(s)
        return out
    closed = {}
    for f in functions(tree):
        # not on variables of an enclosing function
        stores = {n.id for n in own_nodes(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        def go(b):
            return b
    every_block(tree, fn)


def t_constants(tree):
    made = []
    class K(ast.NodeTransformer):
        def __init__(self):
            self.deep = 0
        def fun(self, n):
            self.deep += 1
            doc = n.body[0] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else None
            n.body = [s if s is doc else self.visit(s) for s in n.body]
            self.deep -= 1
            return n
        visit_FunctionDef = visit_AsyncFunctionDef = fun
        def visit_JoinedStr(self, n):
            for v in n.values:
                if isinstance(v, ast.FormattedValue):
                    v.value = self.visit(v.value)
            return n
        def visit_AnnAssign(self, n):
            if n.value and self.deep:
                n.value = self.visit(n.value)
            return n
        def visit_Constant(self, n):
            if self.deep and isinstance(n.value, str) and len(n.value) > 1:
                r = f"_TEXT_{len(made) + 1}"
                made.append(ast.Assign([name(r, ast.Store())], ast.Constant(n.value), lineno=0))
                return name(r)
            return n
        def visit_Call(self, n):
            if isinstance(n.func, ast.Name) and n.func.id in ("cast", "TypeVar") or ast.unparse(n.func) == "typing.cast":
                return n
            return self.generic_visit(n)
        def visit_Match(self, n):
            return n
    K().visit(tree)
    at = 0
    for i, s in enumerate(tree.body):
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            at = i + 1
    tree.body[at:at] = made


def t_isinstance_or(tree):
    class I(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple) and simple(n.args[0]):
                return ast.BoolOp(ast.Or(), [call(name("isinstance"), n.args[0], x) for x in n.args[1].elts])
            return n
    I().visit(tree)


def t_isinstance_tuple(tree):
    class I(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], (ast.Name, ast.Attribute)):
                n.args[1] = ast.Tuple([n.args[1]], ast.Load())
            return n
    I().visit(tree)


def t_gen_to_list(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) and (isinstance(n.func, ast.Attribute) and n.func.attr in ("join", "extend") or isinstance(n.func, ast.Name) and n.func.id in ("any", "all", "tuple", "dict", "set", "sorted", "list")):
            g = n.args[0]
            if not any(x.is_async for x in g.generators):
                n.args[0] = ast.ListComp(g.elt, g.generators)


def t_list_to_gen(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and len(n.args) == 1 and isinstance(n.args[0], ast.ListComp) and (isinstance(n.func, ast.Attribute) and n.func.attr in ("join", "extend") or isinstance(n.func, ast.Name) and n.func.id in ("any", "all", "tuple", "dict", "set", "sorted", "list")):
            g = n.args[0]
            if not any(x.is_async or isinstance(y, ast.Await) for x in g.generators for y in ast.walk(g)):
                n.args[0] = ast.GeneratorExp(g.elt, g.generators)


def t_dead(tree):
    for f in functions(tree):
        at = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(at, ast.Assign([name("_unused", ast.Store())], ast.Constant(None), lineno=0))


def t_log(tree):
    at = 0
    for i, s in enumerate(tree.body):
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            at = i + 1
    tree.body[at:at] = ast.parse("import logging as _logging\n_LOG = _logging.getLogger('pysqlsync.trace')\n").body
    for f in functions(tree):
        i = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(i, ast.parse(f"_LOG.debug('in %s', '{f.name}')").body[0])


def t_reverse_methods(tree):
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        idx = [i for i, s in enumerate(c.body) if isinstance(s, FUNC)]
        if any(ast.unparse(d).endswith((".setter", "overload", ".deleter")) for i in idx for d in c.body[i].decorator_list):
            continue
        ms = [c.body[i] for i in idx]
        for i, m in zip(idx, reversed(ms)):
            c.body[i] = m


def t_expr_helper(tree):
    "Expressions of methods move to new methods."
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        if any(ast.unparse(b).startswith(("Protocol", "enum", "Enum", "NamedTuple")) for b in c.bases):
            continue
        new = []
        for f in c.body:
            if not isinstance(f, FUNC) or f.name in ("__init__", "__new__") or not f.args.args or f.args.args[0].arg != "self" or any("staticmethod" in ast.unparse(d) or "classmethod" in ast.unparse(d) for d in f.decorator_list):
                continue
            known = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs} | {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
            loc = {s.name for s in ast.walk(f) if isinstance(s, FUNC)} - {f.name}
            for s in own_nodes(f):
                slot = None
                if isinstance(s, (ast.Return, ast.Assign)) and s.value is not None:
                    slot = (s, "value")
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append" and len(s.value.args) == 1:
                    slot = (s.value, None)
                if slot is None:
                    continue
                e = slot[0].args[0] if slot[1] is None else slot[0].value
                if not isinstance(e, (ast.JoinedStr, ast.BinOp, ast.Call, ast.IfExp)) or any(isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Lambda)) or isinstance(x, ast.Name) and x.id in {"super", "locals"} | loc for x in ast.walk(e)):
                    continue
                comp = {n.id for g in ast.walk(e) if isinstance(g, ast.comprehension) for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                used = []
                for x in ast.walk(e):
                    if isinstance(x, ast.Name) and x.id in known and x.id not in used and x.id not in comp:
                        used.append(x.id)
                used = [u for u in used if u != "self"]
                g = ast.parse(f"def _part(self, {', '.join(used)}): pass").body[0]
                g.name = f"_{c.name.lower()}_{f.name.strip('_')}_{fresh('part')}"
                g.body = [ast.Return(e)]
                r = ast.Call(ast.Attribute(name("self"), g.name, ast.Load()), [name(u) for u in used], [])
                if slot[1] is None:
                    slot[0].args[0] = r
                else:
                    slot[0].value = r
                new.append(g)
        c.body.extend(new)


def t_expr_function(tree):
    "Texts built in a function move to module functions."
    new = []
    for f in functions(tree):
        known = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for n in ast.walk(f) if isinstance(n, FUNC + (ast.Lambda,)) for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]}
        known |= {s.name for s in ast.walk(f) if isinstance(s, FUNC)} - {f.name}
        class J(ast.NodeTransformer):
            def visit_JoinedStr(self, n):
                if any(isinstance(x, (ast.Await, ast.Yield, ast.NamedExpr)) or isinstance(x, ast.Name) and x.id in ("super",) for x in ast.walk(n)):
                    return n
                comp = {m.id for g in ast.walk(n) if isinstance(g, ast.comprehension) for m in ast.walk(g.target) if isinstance(m, ast.Name)}
                used = list(dict.fromkeys(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and x.id in known and x.id not in comp))
                # a method's class is not visible under another name
                g = ast.parse(f"def {fresh('_text')}({', '.join(used)}): pass").body[0]
                g.body = [ast.Return(n)]
                new.append(g)
                return call(name(g.name), *[name(u) for u in used])
            def visit_FunctionDef(self, n):
                return n
            visit_AsyncFunctionDef = visit_FunctionDef
            def visit_ClassDef(self, n):
                return n
        at = f.body
        f.body = [J().visit(s) for s in at]
    at = 0
    for i, s in enumerate(tree.body):
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            at = i + 1
    tree.body[at:at] = new


def t_elif_nest(tree):
    "elif becomes else with an if in it, followed by nothing: only a marker statement tells them apart"
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
            n.orelse.append(ast.Pass())


def t_while_enumerate(tree):
    "for x in xs -> for i, x in enumerate(xs)"
    for n in ast.walk(tree):
        if isinstance(n, ast.For) and isinstance(n.iter, (ast.Name, ast.Attribute)) :
            n.target = ast.Tuple([name(fresh("_i"), ast.Store()), n.target], ast.Store())
            n.iter = call(name("enumerate"), n.iter)


def t_iter_var(tree):
    def fn(b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not simple(s.iter):
                r = fresh("source")
                out.append(ast.Assign([name(r, ast.Store())], s.iter, lineno=0))
                s.iter = name(r)
            if isinstance(s, ast.If) and not simple(s.test) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
                r = fresh("cond")
                out.append(ast.Assign([name(r, ast.Store())], s.test, lineno=0))
                s.test = name(r)
            out.append(s)
        return out
    every_block(tree, fn)


def t_walrus(tree):
    def fn(b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and out and isinstance(out[-1], ast.Assign) and isinstance(out[-1].targets[0], ast.Name) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == out[-1].targets[0].id:
                p = out.pop()
                s.test.left = ast.NamedExpr(name(p.targets[0].id, ast.Store()), p.value)
            out.append(s)
        return out
    every_block(tree, fn)


def t_lambda_def(tree):
    def fn(b):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Lambda):
                r = fresh("inner")
                g = ast.FunctionDef(r, s.value.args, [ast.Return(s.value.body)], [], None, None, lineno=0)
                if sys.version_info >= (3, 12):
                    g.type_params = []
                out += [g, ast.Return(name(r))]
            else:
                out.append(s)
        return out
    every_block(tree, fn)


def t_self_var(tree):
    "self.a used twice or more in a function that does not assign it is kept in a variable"
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        for f in c.body:
            if not isinstance(f, FUNC) or f.name in ("__init__",) or not f.args.args or f.args.args[0].arg != "self" or any(isinstance(x, ast.Await) for x in ast.walk(f)) or any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(f)):
                continue
            if isinstance(f, ast.AsyncFunctionDef):
                continue
            body = f.body[1:] if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else f.body
            if not body:
                continue
            stores = any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self" for x in ast.walk(f))
            uses = [x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in ("name", "options", "converter", "state", "discovery", "conn", "factory", "members", "description")]
            # only attributes read unconditionally in the first statement
            first = {x.attr for x in ast.walk(body[0]) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"} if isinstance(body[0], (ast.Assign, ast.Return, ast.Expr, ast.For)) else set()
            if stores:
                continue
            for a in {u for u in uses if uses.count(u) > 1} & first:
                r = fresh("own")
                class A(ast.NodeTransformer):
                    def visit_Attribute(self, n, a=a, r=r):
                        self.generic_visit(n)
                        if n.attr == a and isinstance(n.value, ast.Name) and n.value.id == "self":
                            return name(r)
                        return n
                k = f.body.index(body[0])
                new = [A().visit(s) for s in f.body[k:]]
                f.body[k:] = [ast.Assign([name(r, ast.Store())], ast.Attribute(name("self"), a, ast.Load()), lineno=0)] + new
                body = f.body[k + 1:]
                break


def t_dict_items(tree):
    "for v in d.values() -> for _, v in d.items()"
    for n in ast.walk(tree):
        if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and not n.iter.args:
            if n.iter.func.attr in ("values", "keys"):
                k = fresh("_k")
                n.target = ast.Tuple([name(k, ast.Store()), n.target] if n.iter.func.attr == "values" else [n.target, name(k, ast.Store())], ast.Store())
                n.iter.func.attr = "items"


def t_ternary_or(tree):
    "if not x: ... stays; `x or None` -> `x if x else None`"
    class O(ast.NodeTransformer):
        def visit_BoolOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Or) and len(n.values) == 2 and simple(n.values[0]) and isinstance(n.values[1], (ast.Constant, ast.Call)) and not (isinstance(n.values[1], ast.Call) and isinstance(n.values[1].func, ast.Name) and n.values[1].func.id in ("isinstance", "issubclass")):
                return ast.IfExp(n.values[0], n.values[0], n.values[1])
            return n
    O().visit(tree)


def t_star_list(tree):
    "list(x) -> [*x], a + b of list displays"
    class L(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple") and len(n.args) == 1 and not isinstance(n.args[0], ast.GeneratorExp):
                k = ast.List if n.func.id == "list" else ast.Tuple
                return k([ast.Starred(n.args[0], ast.Load())], ast.Load())
            return n
    L().visit(tree)


# -- second part: larger pieces


def locals_of(f):
    a = f.args
    return {n.id for n in own_nodes(f) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)} | {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x} | {n.name for n in own_nodes(f) if isinstance(n, (ast.ExceptHandler,) + FUNC) and n.name}


def movable(stmts):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.NamedExpr, ast.Break, ast.Continue) + FUNC + (ast.ClassDef,)):
                return False
            if isinstance(n, ast.Name) and n.id in ("super", "__class__"):
                return False
    return True


def reads_of(stmts):
    return {n.id for s in stmts for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def stores_of(stmts):
    return {n.id for s in stmts for n in ast.walk(s) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}


def has_await(stmts):
    return any(isinstance(n, (ast.Await, ast.AsyncFor, ast.AsyncWith)) or isinstance(n, ast.comprehension) and n.is_async for s in stmts for n in ast.walk(s))


def methods(tree):
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef) and not any(ast.unparse(b).startswith(("Protocol", "enum", "Enum", "NamedTuple")) for b in c.bases):
            for f in list(c.body):
                if isinstance(f, FUNC) and f.args.args and f.args.args[0].arg == "self" and not f.name.startswith("__") and not any(isinstance(n, FUNC + (ast.Lambda,)) for n in ast.walk(f) if n is not f):
                    yield c, f


def moved(c, f, stmts, args, tag):
    me = "self" in reads_of(stmts)
    cls = ast.AsyncFunctionDef if has_await(stmts) else ast.FunctionDef
    g = ast.parse(f"def {fresh('_' + c.name.lower() + '_' + f.name.strip('_') + '_' + tag)}(self{''.join(', ' + a for a in args)}): pass").body[0]
    h = cls(**{k: getattr(g, k) for k in g._fields if hasattr(g, k)})
    h.body = stmts
    c.body.append(h)
    e = call(ast.Attribute(name("self"), h.name, ast.Load()), *[name(a) for a in args])
    return ast.Await(e) if cls is ast.AsyncFunctionDef else e


def t_block_helper(tree):
    "Bodies of loops and conditions move to new methods."
    for c, f in list(methods(tree)):
        loc = locals_of(f)
        def fn(node):
            for n in ast.iter_child_nodes(node):
                if isinstance(n, SCOPE):
                    continue
                if isinstance(n, (ast.For, ast.If)):
                    for field in ("body", "orelse"):
                        b = getattr(n, field)
                        if len(b) >= 2 and movable(b) and not any(isinstance(x, ast.Return) for s in b for x in ast.walk(s)):
                            st = stores_of(b)
                            inside = {id(x) for s in b for x in ast.walk(s)}
                            outside = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and id(x) not in inside}
                            if st & outside:
                                continue
                            args = sorted(x for x in reads_of(b) if x in loc and x not in st and x != "self")
                            # a variable that is assigned here before it is read is not an argument
                            setattr(n, field, [ast.Expr(moved(c, f, b, args, "block"))])
                fn(n)
        fn(f)


def t_tail_helper(tree):
    "The second half of a method moves to a new method."
    for c, f in list(methods(tree)):
        body = f.body
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(f)):
            continue
        k = len(body) // 2
        if len(body) < 4 or not movable(body[k:]):
            continue
        known = set()
        for s in body[:k]:
            known |= stores_of([s])
        a = f.args
        loc = locals_of(f)
        params = {x.arg for x in a.args + a.kwonlyargs}
        need = {x for x in reads_of(body[k:]) if x in loc and (x in params or x in known)}
        # only those that are surely assigned
        sure = set(params)
        for s in body[:k]:
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                sure |= stores_of([s])
        if not need <= sure or {x for x in reads_of(body[k:]) if x in loc} & stores_of(body[k:]) & need:
            continue
        e = moved(c, f, body[k:], sorted(need - {"self"}), "rest")
        f.body = body[:k] + [ast.Return(e)]


def t_value_helper(tree):
    "A run of assignments and the statements between them, of which one variable is used afterwards, moves to a new method that returns it."
    for c, f in list(methods(tree)):
        body = f.body
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(f)):
            continue
        loc = locals_of(f)
        params = {x.arg for x in f.args.args + f.args.kwonlyargs}
        done = False
        for i in range(len(body)):
            if done:
                break
            for j in range(min(len(body) - 1, i + 5), i + 1, -1):
                part = body[i:j]
                if not movable(part) or any(isinstance(x, ast.Return) for s in part for x in ast.walk(s)):
                    continue
                st = stores_of(part)
                before = stores_of(body[:i]) | params
                if st & before:
                    continue
                after = st & reads_of(body[j:])
                if len(after) != 1 or after & stores_of(body[j:]):
                    continue
                v = next(iter(after))
                if not any(isinstance(s, (ast.Assign, ast.AnnAssign)) and v in stores_of([s]) for s in part):
                    continue
                args = sorted(x for x in reads_of(part) if x in loc and x not in st and x != "self")
                if not set(args) <= before or any(not any(a in params or isinstance(s, (ast.Assign, ast.AnnAssign, ast.For)) and a in stores_of([s]) for s in body[:i] or [None]) for a in args):
                    continue
                e = moved(c, f, part + [ast.Return(name(v))], args, "value")
                f.body = body[:i] + [ast.Assign([name(v, ast.Store())], e, lineno=0)] + body[j:]
                done = True
                break


def t_nested_helper(tree):
    "Expressions move to functions inside the function."
    for f in functions(tree):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(f)):
            continue
        out = []
        for s in f.body:
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, (ast.JoinedStr, ast.BinOp, ast.IfExp, ast.Call)) and not any(isinstance(x, (ast.Await, ast.NamedExpr, ast.Lambda)) or isinstance(x, ast.Name) and x.id in ("super", "locals") for x in ast.walk(s.value)) and not (isinstance(s, ast.Assign) and stores_of([s]) & reads_of([ast.Expr(s.value)])):
                g = ast.parse(f"def {fresh('make')}(): pass").body[0]
                g.body = [ast.Return(s.value)]
                out.append(g)
                s.value = call(name(g.name))
            out.append(s)
        f.body = out


def t_static_helper(tree):
    "Texts move to static methods, called by the name of the class."
    for c in [n for n in tree.body if isinstance(n, ast.ClassDef)]:
        if any(ast.unparse(b).startswith(("Protocol", "enum", "Enum", "NamedTuple")) for b in c.bases):
            continue
        for f in [f for f in c.body if isinstance(f, FUNC)]:
            if any(isinstance(x, ast.Name) and x.id == c.name and isinstance(x.ctx, ast.Store) for x in ast.walk(f)):
                continue
            loc = locals_of(f)
            for s in own_nodes(f):
                if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, (ast.JoinedStr, ast.Call, ast.BinOp)) and not any(isinstance(x, (ast.Await, ast.NamedExpr, ast.Lambda)) or isinstance(x, ast.Name) and x.id in ("super",) for x in ast.walk(s.value)):
                    comp = {n.id for g in ast.walk(s.value) if isinstance(g, ast.comprehension) for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                    args = sorted(x for x in reads_of([ast.Expr(s.value)]) if x in loc and x not in comp)
                    if comp & loc and any(x in loc for x in comp):
                        continue
                    ren = {"self": "me"}
                    g = ast.parse(f"@staticmethod\ndef {fresh('_' + c.name.lower() + '_static')}({', '.join(ren.get(a, a) for a in args)}): pass").body[0]
                    e = copy.deepcopy(s.value)
                    if any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for x in ast.walk(e)):
                        continue
                    for x in ast.walk(e):
                        if isinstance(x, ast.Name) and x.id == "self":
                            x.id = "me"
                    g.body = [ast.Return(e)]
                    c.body.append(g)
                    s.value = call(ast.Attribute(name(c.name), g.name, ast.Load()), *[name(a) for a in args])


class Percent(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        if not n.values or has_fstring_fmt(n) or not any(isinstance(v, ast.FormattedValue) for v in n.values):
            return n
        text, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                text += v.value.replace("%", "%%")
            else:
                text += {-1: "%s", 114: "%r", 115: "%s"}.get(v.conversion, "%s")
                args.append(v.value)
        return ast.BinOp(ast.Constant(text), ast.Mod(), ast.Tuple(args, ast.Load()))


def t_fstr_percent(tree):
    Percent().visit(tree)


class Loops(ast.NodeTransformer):
    pass


def t_any_loop(tree):
    "any() and all() become loops that set a variable"
    def fn(b):
        out = []
        for s in b:
            e = s.test if isinstance(s, ast.If) else s.value if isinstance(s, (ast.Return, ast.Assign)) else None
            neg_ = isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)
            x = e.operand if neg_ else e
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("any", "all") and isinstance(x.args[0], (ast.GeneratorExp, ast.ListComp)) and len(x.args[0].generators) == 1:
                g = x.args[0].generators[0]
                r = fresh("found")
                is_any = x.func.id == "any"
                t = x.args[0].elt if is_any else neg(x.args[0].elt)
                body = [ast.If(t, [ast.Assign([name(r, ast.Store())], ast.Constant(is_any), lineno=0), ast.Break()], [])]
                for cnd in reversed(g.ifs):
                    body = [ast.If(cnd, body, [])]
                out.append(ast.Assign([name(r, ast.Store())], ast.Constant(not is_any), lineno=0))
                out.append(ast.For(g.target, g.iter, body, [], lineno=0))
                v = neg(name(r)) if neg_ else name(r)
                if isinstance(s, ast.If):
                    s.test = v
                else:
                    s.value = v
            out.append(s)
        return out
    every_block(tree, fn)


def t_loop_any(tree):
    "for x in xs: if c: return True; return False -> return any()"
    def fn(b):
        if len(b) >= 2 and isinstance(b[-1], ast.Return) and isinstance(b[-1].value, ast.Constant) and isinstance(b[-1].value.value, bool) and isinstance(b[-2], ast.For) and len(b[-2].body) == 1 and isinstance(b[-2].body[0], ast.If) and not b[-2].body[0].orelse and len(b[-2].body[0].body) == 1 and isinstance(b[-2].body[0].body[0], ast.Return) and isinstance(b[-2].body[0].body[0].value, ast.Constant) and b[-2].body[0].body[0].value.value is (not b[-1].value.value):
            x = call(name("any"), ast.GeneratorExp(b[-2].body[0].test, [ast.comprehension(b[-2].target, b[-2].iter, [], 0)]))
            return b[:-2] + [ast.Return(x if not b[-1].value.value else ast.UnaryOp(ast.Not(), x))]
        return b
    every_block(tree, fn)


def t_is_eq(tree):
    "members of enumerations are compared by equality"
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.comparators[0], ast.Attribute) and isinstance(n.comparators[0].value, ast.Name) and n.comparators[0].value.id.endswith(("Mode", "Status", "Action", "Type")):
            if isinstance(n.ops[0], ast.Is):
                n.ops[0] = ast.Eq()
            elif isinstance(n.ops[0], ast.IsNot):
                n.ops[0] = ast.NotEq()
            elif isinstance(n.ops[0], ast.Eq):
                n.ops[0] = ast.Is()
            elif isinstance(n.ops[0], ast.NotEq):
                n.ops[0] = ast.IsNot()


def t_len_check(tree):
    "if xs: -> if len(xs) > 0: where xs is a list built here"
    for f in functions(tree):
        lists = {t.id for s in own_nodes(f) if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, (ast.List, ast.ListComp)) for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Name)}
        bad = {t.id for s in own_nodes(f) if isinstance(s, ast.Assign) and not isinstance(s.value, (ast.List, ast.ListComp)) for t in s.targets if isinstance(t, ast.Name)}
        for n in own_nodes(f):
            if isinstance(n, (ast.If, ast.IfExp)):
                t = n.test
                if isinstance(t, ast.Name) and t.id in lists - bad:
                    n.test = ast.Compare(call(name("len"), t), [ast.Gt()], [ast.Constant(0)])
                elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Name) and t.operand.id in lists - bad:
                    n.test = ast.Compare(call(name("len"), t.operand), [ast.Eq()], [ast.Constant(0)])


class MapComp(ast.NodeTransformer):
    def comp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs and not n.generators[0].is_async and isinstance(n.generators[0].target, ast.Name) and isinstance(n.elt, ast.Call) and not n.elt.keywords and len(n.elt.args) == 1 and isinstance(n.elt.args[0], ast.Name) and n.elt.args[0].id == n.generators[0].target.id and not any(isinstance(x, ast.Name) and x.id == n.generators[0].target.id for x in ast.walk(n.elt.func)):
            m = call(name("map"), n.elt.func, n.generators[0].iter)
            return call(name("list"), m) if isinstance(n, ast.ListComp) else m
        return n
    visit_ListComp = visit_GeneratorExp = comp


def t_map_comp(tree):
    MapComp().visit(tree)


def t_lambda_map(tree):
    class M(ast.NodeTransformer):
        def comp(self, n):
            self.generic_visit(n)
            if len(n.generators) == 1 and not n.generators[0].ifs and not n.generators[0].is_async and isinstance(n.generators[0].target, ast.Name) and not any(isinstance(x, (ast.Await,)) for x in ast.walk(n.elt)):
                m = call(name("map"), ast.Lambda(ast.arguments([], [ast.arg(n.generators[0].target.id)], None, [], [], None, []), n.elt), n.generators[0].iter)
                return call(name("list"), m) if isinstance(n, ast.ListComp) else m
            return n
        visit_ListComp = visit_GeneratorExp = comp
    for f in functions(tree):
        f.body = [M().visit(s) for s in f.body]


def t_tuple_assign(tree):
    def fn(b):
        out = []
        for s in b:
            p = out[-1] if out else None
            if isinstance(s, ast.Assign) and isinstance(p, ast.Assign) and len(s.targets) == len(p.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(p.targets[0], ast.Name) and p.targets[0].id not in reads_of([s]) and p.targets[0].id != s.targets[0].id and not isinstance(p.value, ast.Await) and not isinstance(s.value, ast.Await) and s.targets[0].id not in reads_of([p]):
                out[-1] = ast.Assign([ast.Tuple([p.targets[0], s.targets[0]], ast.Store())], ast.Tuple([p.value, s.value], ast.Load()), lineno=0)
            else:
                out.append(s)
        return out
    every_block(tree, fn)


def t_super_args(tree):
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        for f in [f for f in c.body if isinstance(f, FUNC) and f.args.args and f.args.args[0].arg == "self"]:
            for n in ast.walk(f):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
                    n.args = [name(c.name), name("self")]


def t_dict_loop(tree):
    "dictionary and set comprehensions become loops"
    def fn(b):
        out = []
        for s in b:
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Return, ast.Assign, ast.AnnAssign)) and isinstance(v, (ast.DictComp, ast.SetComp)):
                r = fresh("items")
                ren = {x.id: fresh(x.id) for g in v.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for x in ast.walk(v):
                    if isinstance(x, ast.Name) and x.id in ren:
                        x.id = ren[x.id]
                if isinstance(v, ast.DictComp):
                    inner = [ast.Assign([ast.Subscript(name(r), v.key, ast.Store())], v.value, lineno=0)]
                    init = ast.Dict([], [])
                else:
                    inner = [ast.Expr(call(ast.Attribute(name(r), "add", ast.Load()), v.elt))]
                    init = call(name("set"))
                for g in reversed(v.generators):
                    for c in reversed(g.ifs):
                        inner = [ast.If(c, inner, [])]
                    inner = [ast.For(g.target, g.iter, inner, [], lineno=0)]
                out.append(ast.Assign([name(r, ast.Store())], init, lineno=0))
                out.extend(inner)
                s.value = name(r)
            out.append(s)
        return out
    every_block(tree, fn)


def t_extend_loop(tree):
    "xs.extend(generator or comprehension) -> loop with append; xs.append in a loop over one thing -> extend(generator)"
    def fn(b):
        out = []
        for s in b:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "extend" and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id != "self" and len(s.value.args) == 1:
                a = s.value.args[0]
                if isinstance(a, (ast.GeneratorExp, ast.ListComp)):
                    inner = [ast.Expr(call(ast.Attribute(s.value.func.value, "append", ast.Load()), a.elt))]
                    for g in reversed(a.generators):
                        for c in reversed(g.ifs):
                            inner = [ast.If(c, inner, [])]
                        inner = [ast.For(g.target, g.iter, inner, [], lineno=0)]
                    out.extend(inner)
                else:
                    v = fresh("x")
                    out.append(ast.For(name(v, ast.Store()), a, [ast.Expr(call(ast.Attribute(s.value.func.value, "append", ast.Load()), name(v)))], [], lineno=0))
            elif isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call) and isinstance(s.body[0].value.func, ast.Attribute) and s.body[0].value.func.attr == "append" and isinstance(s.body[0].value.func.value, ast.Name) and s.body[0].value.func.value.id != "self" and not has_await(s.body):
                out.append(ast.Expr(call(ast.Attribute(s.body[0].value.func.value, "extend", ast.Load()), ast.GeneratorExp(s.body[0].value.args[0], [ast.comprehension(s.target, s.iter, [], 0)]))))
            else:
                out.append(s)
        return out
    every_block(tree, fn)


def t_reverse_functions(tree):
    "module functions in the reverse order, at the end"
    if any(isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) for n in tree.body):
        return
    fs = [n for n in tree.body if isinstance(n, FUNC) and not n.decorator_list and not n.args.defaults and not any(k for k in n.args.kw_defaults)]
    used = {x.id for s in tree.body if not isinstance(s, FUNC) for x in ast.walk(s) if isinstance(x, ast.Name)} if False else set()
    inclass = {x.id for s in tree.body if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Expr, ast.ClassDef)) for x in ([s] if not isinstance(s, ast.ClassDef) else [b for b in s.body if not isinstance(b, FUNC)]) for x in ast.walk(x) if isinstance(x, ast.Name)}
    mv = [f for f in fs if f.name not in inclass]
    tree.body = [n for n in tree.body if n not in mv] + mv[::-1]


def t_kw_order(tree):
    "keyword arguments in the reverse order"
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and len(n.keywords) > 1 and all(k.arg for k in n.keywords) and not any(isinstance(x, (ast.Await, ast.NamedExpr)) for k in n.keywords for x in ast.walk(k.value)):
            n.keywords.reverse()


def t_else_return(tree):
    "if c: return a; return b -> if c: r = a else: r = b; return r"
    def fn(b):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], ast.Return) and s.body[-1].value is not None and i == len(b) - 2 and isinstance(b[-1], ast.Return) and b[-1].value is not None:
                r = fresh("r")
                s.body[-1] = ast.Assign([name(r, ast.Store())], s.body[-1].value, lineno=0)
                s.orelse = [ast.Assign([name(r, ast.Store())], b[-1].value, lineno=0)]
                return out + [s, ast.Return(name(r))]
            out.append(s)
            i += 1
        return out
    every_block(tree, fn)


def t_sort_call(tree):
    "x.sort(...) -> x = sorted(x, ...) for local names"
    def fn(b):
        out = []
        for s in b:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "sort" and isinstance(s.value.func.value, ast.Name):
                n = s.value.func.value.id
                s = ast.Assign([name(n, ast.Store())], ast.Call(name("sorted"), [name(n)], s.value.keywords), lineno=0)
            out.append(s)
        return out
    for f in functions(tree):
        params = {a.arg for a in f.args.args}
        if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "sort" and isinstance(x.func.value, ast.Name) and x.func.value.id in params for x in ast.walk(f)):
            every_block(f, fn, False)


def t_unpack(tree):
    "for a, b in xs -> for p in xs: a, b = p"
    for n in ast.walk(tree):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Tuple):
            p = fresh("pair")
            n.body.insert(0, ast.Assign([n.target], name(p), lineno=0))
            n.target = name(p, ast.Store())


def t_none_or(tree):
    "x if x is not None else y -> y if x is None else x, as statements"
    t_invert_exp(tree)
    t_tern_to_if(tree)


def t_assert(tree):
    for f in functions(tree):
        doc = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) and isinstance(f.body[0].value.value, str) else 0
        if f.args.args and f.args.args[0].arg == "self" and not (len(f.body) == 1 and isinstance(f.body[0], (ast.Expr, ast.Pass))):
            f.body.insert(doc, ast.Assert(ast.Compare(name("self"), [ast.IsNot()], [ast.Constant(None)]), None))


def t_ann(tree):
    "assignments get annotations that say little, and lose theirs"
    def fn(b):
        out = []
        for s in b:
            if isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                s = ast.Assign([s.target], s.value, lineno=0)
            out.append(s)
        return out
    every_block(tree, fn)


def whole_inline_private(trees):
    "Private helpers that exist are put back at their call sites."
    sys.path.insert(0, ROOT)
    from analysis import inliner
    names = {n for n in inliner.collect(trees.values()) if not re.match(r"_[a-z]", n)}
    ov = {}
    inl = inliner.Inliner(trees, names)
    for _ in range(6):
        inl.find()
        if not inl.run():
            break
    inl.remove()


WHOLE = {"inline_private": whole_inline_private}


ALL = {k[2:]: v for k, v in list(globals().items()) if k.startswith("t_")}
ALL |= WHOLE


def make(kind, out, only=None):
    if os.path.exists(out):
        shutil.rmtree(out)
    shutil.copytree(REPO, out, ignore=shutil.ignore_patterns(".git", "__pycache__", "build", "*.egg-info"))
    if kind in WHOLE:
        paths = {os.path.relpath(os.path.join(b, n), out)[:-3].replace(os.sep, "."): os.path.join(b, n) for b, _, fs in os.walk(os.path.join(out, "pysqlsync")) for n in fs if n.endswith(".py")}
        trees = {m: ast.parse(open(p, encoding="utf-8").read()) for m, p in sorted(paths.items())}
        WHOLE[kind](trees)
        for m, p in paths.items():
            ast.fix_missing_locations(trees[m])
            open(p, "w", encoding="utf-8").write(ast.unparse(trees[m]) + "\n")
        return
    for base, _, files in os.walk(os.path.join(out, "pysqlsync")):
        for n in sorted(files):
            p = os.path.join(base, n)
            if n.endswith(".py") and (not only or only in p):
                tree = ast.parse(open(p, encoding="utf-8").read())
                for k in kind.split("+"):
                    ALL[k](tree)
                    ast.fix_missing_locations(tree)
                open(p, "w", encoding="utf-8").write(ast.unparse(tree) + "\n")
                compile(open(p, encoding="utf-8").read(), p, "exec")


def checks():
    return sorted(m.group(1).upper() for f in os.listdir(os.path.join(ROOT, "analysis", "rules")) if (m := re.fullmatch(r"(c\d\d)\.py", f)))


def one(job):
    kind, tree, cid = job
    ev = f"/tmp/rf/ev"
    r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), cid], cwd=ROOT, env={**os.environ, "VERIF_REPO": tree, "VERIF_EVIDENCE": ev}, capture_output=True, text=True)
    if r.returncode == 0:
        return kind, cid, 0, []
    lines = [l for l in (r.stdout + r.stderr).splitlines() if "KNOWN-FINDING" not in l and not l.startswith(("property=", "VIOLATION"))]
    return kind, cid, r.returncode, lines


def main(argv):
    kinds, only, ids = [], None, None
    it = iter(argv)
    for a in it:
        if a == "-k":
            ids = next(it).split(",")
        elif a == "-f":
            only = next(it)
        else:
            kinds.append(a)
    kinds = kinds or list(ALL)
    jobs = []
    for k in kinds:
        out = f"/tmp/rf/{k}"
        make(k, out, only)
        t = subprocess.run(["/opt/venv/bin/python", "-m", "unittest", "discover", "-q"] if False else ["/opt/venv/bin/python", "-c", "import pysqlsync.factory"], cwd=out, env={**os.environ, "PYTHONPATH": out}, capture_output=True, text=True)
        if t.returncode:
            print(k, "BROKEN", t.stderr[-300:])
            continue
        jobs += [(k, out, c) for c in (ids or checks())]
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for k, c, rc, lines in ex.map(one, jobs):
            if rc:
                bad += 1
                print(k, c, rc, len(lines), flush=True)
                for l in lines[:3] if rc == 1 else lines[-2:]:
                    print("    ", l[:230])
    print("runs", len(jobs), "alarms", bad)


if __name__ == "__main__":
    main(sys.argv[1:])
