"""
Brings different ways of writing the same thing into one form, before analysis. Each rewriting keeps the meaning of the program; positions
in the source are kept.

* `for _, v in d.items()` with the key unused is `for v in d.values()`; with the value unused, `for k in d.keys()`; `for _, x in enumerate(s)`
  with the index unused is `for x in s`;
* `super(C, self)` in the class C is `super()`;
* `isinstance(x, (A,))` is `isinstance(x, A)`;
* `[*x]` is `list(x)`, `(*x,)` is `tuple(x)`;
* `s.extend([x])`, `s.extend((x,))` and `s += [x]` are `s.append(x)`;
* `", ".join([a, b])` of a list of expressions is the template that has them in place;
* `"… %s …" % (a, b)` is the formatted string;
* `map(f, xs)` is `(f(x) for x in xs)`, `filter(f, xs)` is `(x for x in xs if f(x))`, a lambda that is called at once is its body, and
  `list(… for …)` is a list comprehension;
* `{k: d[k] for k in d}` is `{k: v for k, v in d.items()}`, `{k: v for k, v in zip(…)}` is `dict(zip(…))`;
* `a, b = x, y` is `a = x` and `b = y`, where no target is read on the right;
* `x if x else y` is `x or y`;
* an assignment of a constant to a variable that is never read is left out;
* a variable that a loop sets to tell whether some element has a property is `any(…)` or `all(…)`;
* a variable that is assigned another variable, where both are assigned only once, is that variable;
* a variable that is assigned once and read once, at the start of the next statement, is the expression assigned.
"""

from __future__ import annotations

import ast
import re
from typing import Iterator, Optional

FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
SCOPES = FUNC + (ast.Lambda, ast.ClassDef)


def loads(node: ast.AST) -> set[str]:
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Store)}


def bound(node: ast.AST) -> set[str]:
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


def plain(e: ast.expr) -> bool:
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


class Normalise(ast.NodeTransformer):
    def __init__(self) -> None:
        self.read: list[set[str]] = []
        self.made_names = 0

    # -- scopes

    def function(self, n):
        shared = {x for s in ast.walk(n) if isinstance(s, (ast.Global, ast.Nonlocal)) for x in s.names}
        self.read.append(loads(n) | shared | {x.id for s in ast.walk(n) if isinstance(s, ast.AugAssign) for x in ast.walk(s.target) if isinstance(x, ast.Name)})
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self.visit(n.args)
        body = []
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r] if r is not None else [])
        n.body = body or [ast.copy_location(ast.Pass(), n)]
        self.read.pop()
        flags(n)
        variables(n)
        return n

    visit_FunctionDef = visit_AsyncFunctionDef = function

    def visit_ClassDef(self, n):
        self.read.append(None)  # type: ignore
        self.generic_visit(n)
        self.read.pop()
        for f in n.body:
            if isinstance(f, FUNC) and f.args.args:
                for c in ast.walk(f):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "super" and len(c.args) == 2 and all(isinstance(a, ast.Name) for a in c.args) and [a.id for a in c.args] == [n.name, f.args.args[0].arg]:  # type: ignore
                        c.args = []
        return n

    # -- loops

    def loop(self, n, scope: set[str]):
        it, tg = n.iter, n.target
        if not (isinstance(tg, ast.Tuple) and len(tg.elts) == 2 and isinstance(it, ast.Call) and not it.keywords):
            return
        used = [bool(bound(x) & scope) or not isinstance(x, (ast.Name, ast.Tuple)) for x in tg.elts]
        if isinstance(it.func, ast.Attribute) and it.func.attr == "items" and not it.args and not all(used):
            it.func.attr = "keys" if used[0] else "values"
            n.target = tg.elts[0] if used[0] else tg.elts[1]
        elif isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args and not used[0]:
            n.iter, n.target = it.args[0], tg.elts[1]

    def visit_For(self, n):
        if self.read and self.read[-1] is not None:
            self.loop(n, self.read[-1])
        return self.block(n)

    visit_AsyncFor = visit_For

    def comp(self, n):
        scope = loads(n)
        for g in n.generators:
            self.loop(g, scope)
        return self.generic_visit(n)

    visit_ListComp = visit_SetComp = visit_GeneratorExp = comp

    def visit_DictComp(self, n):
        self.comp(n)
        if len(n.generators) == 1 and not n.generators[0].ifs and not n.generators[0].is_async:
            g = n.generators[0]
            src = g.iter.func.value if isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) and g.iter.func.attr == "keys" and not g.iter.args else g.iter
            if isinstance(g.target, ast.Name) and isinstance(n.key, ast.Name) and n.key.id == g.target.id and isinstance(n.value, ast.Subscript) and isinstance(n.value.slice, ast.Name) and n.value.slice.id == g.target.id and plain(src) and ast.dump(n.value.value) == ast.dump(src):
                # {k: d[k] for k in d}
                v = f"{g.target.id}__value"
                at = ast.copy_location
                g.target = at(ast.Tuple([g.target, at(ast.Name(v, ast.Store()), n)], ast.Store()), n)
                g.iter = at(ast.Call(at(ast.Attribute(src, "items", ast.Load()), n), [], []), n)
                n.value = at(ast.Name(v, ast.Load()), n)
            elif isinstance(g.target, ast.Tuple) and [ast.dump(x) for x in (n.key, n.value)] == [ast.dump(ast.Name(x.id, ast.Load())) if isinstance(x, ast.Name) else "" for x in g.target.elts] and isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name):
                # {k: v for k, v in zip(...)}
                return ast.copy_location(ast.Call(ast.copy_location(ast.Name("dict", ast.Load()), n), [g.iter], []), n)
        return n

    # -- statements

    def block(self, n):
        self.generic_visit(n)
        if not n.body:
            n.body = [ast.copy_location(ast.Pass(), n)]
        return n

    visit_If = visit_While = visit_With = visit_AsyncWith = visit_Try = visit_ExceptHandler = block

    def visit_Assign(self, n):
        split = self.unpacked(n)
        if split is not None:
            out = []
            for s in split:
                r = self.visit(s)
                if r is not None:
                    out.append(r)
            return out
        if self.read and self.read[-1] is not None and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant) and n.targets[0].id not in self.read[-1]:
            return None
        return self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Add) and isinstance(n.value, ast.List) and len(n.value.elts) == 1 and not isinstance(n.value.elts[0], ast.Starred) and isinstance(n.target, ast.Name):
            f = ast.copy_location(ast.Attribute(ast.copy_location(ast.Name(n.target.id, ast.Load()), n.target), "append", ast.Load()), n.target)
            return ast.copy_location(ast.Expr(ast.copy_location(ast.Call(f, [n.value.elts[0]], []), n)), n)
        return n

    def unpacked(self, n):
        if not (len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and len(n.targets[0].elts) == len(n.value.elts)):
            return None
        ts, vs = n.targets[0].elts, n.value.elts
        if any(isinstance(x, ast.Starred) for x in ts + vs) or not all(isinstance(x, ast.Name) for x in ts):
            return None
        if {x.id for x in ts} & loads(n.value):
            return None
        return [ast.copy_location(ast.Assign([a], b), n) for a, b in zip(ts, vs)]

    # -- expressions

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            return n
        parts = re.split(r"(%[srd%])", n.left.value)
        if any("%" in p for p in parts[::2]):
            return n
        args = list(n.right.elts) if isinstance(n.right, ast.Tuple) else [n.right]
        if isinstance(n.right, (ast.Dict, ast.Starred)) or any(isinstance(a, ast.Starred) for a in args) or sum(p != "%%" for p in parts[1::2]) != len(args):
            return n
        values: list[ast.expr] = []
        for i, p in enumerate(parts):
            if i % 2 == 0 or p == "%%":
                p = "%" if p == "%%" else p
                if p and values and isinstance(values[-1], ast.Constant):
                    values[-1] = ast.copy_location(ast.Constant(values[-1].value + p), n)  # type: ignore
                elif p:
                    values.append(ast.copy_location(ast.Constant(p), n))
            else:
                a = args.pop(0)
                values.append(ast.copy_location(ast.FormattedValue(a, 114 if p == "%r" else -1, None), a))
        return ast.copy_location(ast.JoinedStr(values), n)

    def applied(self, f, x, n):
        "f(x)"
        if isinstance(f, ast.Lambda) and len(f.args.args) == 1 and not (f.args.vararg or f.args.kwarg or f.args.kwonlyargs or f.args.posonlyargs):
            p = f.args.args[0].arg
            if not any(isinstance(s, SCOPES + COMPS) for s in ast.walk(f.body)):
                class P(ast.NodeTransformer):
                    def visit_Name(self, m):
                        return ast.copy_location(ast.Name(x.id, ast.Load()), m) if m.id == p else m
                if p == x.id:
                    return f.body
                if not any(isinstance(m, ast.Name) and m.id == x.id for m in ast.walk(f.body)):
                    return P().visit(f.body)
        return ast.copy_location(ast.Call(f, [x], []), n)

    def mapped(self, n):
        f, src = n.args
        if isinstance(f, ast.Lambda) and len(f.args.args) == 1:
            v = f.args.args[0].arg
        else:
            self.made_names += 1
            v = f"item__{self.made_names}"
        x = ast.copy_location(ast.Name(v, ast.Load()), n)
        if n.func.id == "map":
            e, cond = self.applied(f, x, n), []
        elif isinstance(f, ast.Constant) and f.value is None:
            e, cond = x, [ast.copy_location(ast.Name(v, ast.Load()), n)]
        else:
            e, cond = x, [self.applied(f, ast.copy_location(ast.Name(v, ast.Load()), n), n)]
        return ast.copy_location(ast.GeneratorExp(e, [ast.comprehension(ast.copy_location(ast.Name(v, ast.Store()), n), src, cond, 0)]), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Name) and f.id in ("map", "filter") and len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            return self.mapped(n)
        if isinstance(f, ast.Name) and f.id == "list" and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], ast.GeneratorExp):
            return ast.copy_location(ast.ListComp(n.args[0].elt, n.args[0].generators), n)
        if isinstance(f, ast.Name) and f.id == "isinstance" and len(n.args) == 2 and isinstance(n.args[1], ast.Tuple) and len(n.args[1].elts) == 1:
            n.args[1] = n.args[1].elts[0]
        if isinstance(f, ast.Attribute) and len(n.args) == 1 and not n.keywords:
            a = n.args[0]
            if f.attr == "extend" and isinstance(a, (ast.List, ast.Tuple)) and len(a.elts) == 1 and not isinstance(a.elts[0], ast.Starred):
                f.attr = "append"
                n.args = [a.elts[0]]
            elif f.attr == "join" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) and isinstance(a, (ast.List, ast.Tuple)) and a.elts and not any(isinstance(x, ast.Starred) for x in a.elts):
                return self.template(n, f.value.value, a.elts)
        return n

    def template(self, n, sep: str, parts):
        values: list[ast.expr] = []

        def text(s: str) -> None:
            if s and values and isinstance(values[-1], ast.Constant):
                values[-1] = ast.copy_location(ast.Constant(values[-1].value + s), values[-1])
            elif s:
                values.append(ast.copy_location(ast.Constant(s), n))
        for i, p in enumerate(parts):
            if i:
                text(sep)
            if isinstance(p, ast.Constant) and isinstance(p.value, str):
                text(p.value)
            elif isinstance(p, ast.JoinedStr):
                for v in p.values:
                    if isinstance(v, ast.Constant):
                        text(v.value)
                    else:
                        values.append(v)
            else:
                if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == "str" and len(p.args) == 1 and not p.keywords:
                    p = p.args[0]
                values.append(ast.copy_location(ast.FormattedValue(p, -1, None), p))
        if all(isinstance(v, ast.Constant) for v in values):
            return ast.copy_location(ast.Constant("".join(v.value for v in values)), n)  # type: ignore
        return ast.copy_location(ast.JoinedStr(values), n)

    def visit_IfExp(self, n):
        self.generic_visit(n)
        test, a, b = n.test, n.body, n.orelse
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, a, b = test.operand, b, a
        if plain(test) and ast.dump(test) == ast.dump(a):
            return ast.copy_location(ast.BoolOp(ast.Or(), [a, b]), n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if len(n.elts) == 1 and isinstance(n.elts[0], ast.Starred) and isinstance(n.ctx, ast.Load):
            return self.made("list", n)
        return n

    def visit_Tuple(self, n):
        self.generic_visit(n)
        if len(n.elts) == 1 and isinstance(n.elts[0], ast.Starred) and isinstance(n.ctx, ast.Load):
            return self.made("tuple", n)
        return n

    def made(self, kind: str, n):
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name(kind, ast.Load()), n), [n.elts[0].value], []), n)


# -- variables


def first(s: ast.stmt) -> Optional[ast.expr]:
    "The expression that a statement evaluates before anything else."
    if isinstance(s, (ast.Expr, ast.Return)):
        return s.value
    if isinstance(s, ast.Assign):
        return s.value if all(isinstance(g, ast.Name) for g in s.targets) else None
    if isinstance(s, ast.If):
        return s.test
    if isinstance(s, (ast.For, ast.AsyncFor)):
        return s.iter
    if isinstance(s, ast.Raise):
        return s.exc
    if isinstance(s, (ast.With, ast.AsyncWith)):
        return s.items[0].context_expr
    return None


def evaluated(e: ast.expr) -> Iterator[ast.expr]:
    "The parts of an expression in the order in which their evaluation ends, up to the first that may not be evaluated."
    parts: list[ast.expr]
    if isinstance(e, (ast.Lambda, ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Starred)):
        raise StopIteration
    if isinstance(e, COMPS):
        parts, whole = [e.generators[0].iter], False
    elif isinstance(e, ast.BoolOp):
        parts, whole = [e.values[0]], False
    elif isinstance(e, ast.IfExp):
        parts, whole = [e.test], False
    elif isinstance(e, ast.Compare) and len(e.ops) > 1:
        parts, whole = [e.left, e.comparators[0]], False
    else:
        parts, whole = [], True
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.keyword):
                parts.append(c.value)
            elif isinstance(c, ast.expr):
                parts.append(c)
    for x in parts:
        yield from evaluated(x)
    if not whole:
        raise StopIteration
    yield e


def order(e: ast.expr) -> list[ast.expr]:
    out: list[ast.expr] = []
    try:
        for x in evaluated(e):
            out.append(x)
    except (StopIteration, RuntimeError):
        pass
    return out


class Replace(ast.NodeTransformer):
    def __init__(self, old: ast.AST, new: ast.AST) -> None:
        self.old, self.new = old, new

    def visit(self, n):
        return self.new if n is self.old else self.generic_visit(n)


def flags(f) -> None:
    "x = False; for v in s: if c: x = True; break"
    read = [n for n in ast.walk(f) if isinstance(n, ast.Name)]

    def outcome(b: list[ast.stmt]) -> Optional[tuple[str, bool]]:
        if b and isinstance(b[-1], ast.Break):
            b = b[:-1]
        if len(b) == 1 and isinstance(b[0], ast.Assign) and len(b[0].targets) == 1 and isinstance(b[0].targets[0], ast.Name) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, bool):
            return b[0].targets[0].id, b[0].value.value
        return None

    def visit(b: list[ast.stmt]) -> None:
        i = 0
        while i < len(b) - 1:
            s, t = b[i], b[i + 1]
            i += 1
            init = outcome([s])
            if init is None or not isinstance(t, ast.For) or t.orelse or len(t.body) != 1 or any(isinstance(x, (ast.Await, ast.NamedExpr)) for x in ast.walk(t)):
                continue
            conds = []
            x: ast.stmt = t.body[0]
            while isinstance(x, ast.If) and not x.orelse and len(x.body) == 1 and isinstance(x.body[0], ast.If):
                conds.append(x.test)
                x = x.body[0]
            if not isinstance(x, ast.If) or x.orelse:
                continue
            out = outcome(x.body)
            vs = {n.id for n in ast.walk(t.target) if isinstance(n, ast.Name)}
            inside = {id(n) for n in ast.walk(t)}
            for r in ast.walk(f):
                gs = r.generators if isinstance(r, COMPS) else [r] if isinstance(r, ast.For) and r is not t else []
                if vs <= {n.id for g in gs for n in ast.walk(g.target) if isinstance(n, ast.Name)}:
                    inside |= {id(n) for n in ast.walk(r) if isinstance(n, ast.Name) and n.id in vs and n.id != init[0]}
            if out != (init[0], not init[1]) or any(n.id in vs and id(n) not in inside for n in read) or any(n.id == init[0] and isinstance(n.ctx, ast.Load) and id(n) in inside for n in read):
                continue
            e: ast.expr = x.test
            if init[1]:
                e = e.operand if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) else ast.copy_location(ast.UnaryOp(ast.Not(), e), e)
            g = ast.copy_location(ast.GeneratorExp(e, [ast.comprehension(t.target, t.iter, conds, 0)]), t)
            s.value = ast.copy_location(ast.Call(ast.copy_location(ast.Name("all" if init[1] else "any", ast.Load()), t), [g], []), t)  # type: ignore
            del b[i]

    for n in ast.walk(f):
        for name in ("body", "orelse", "finalbody"):
            b = getattr(n, name, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                visit(b)


def variables(f) -> None:
    nodes = list(ast.walk(f))
    shared = {x for n in nodes if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    inner = {id(x) for n in nodes if isinstance(n, SCOPES) and n is not f for x in ast.walk(n)}
    stores: dict[str, int] = {}
    reads: dict[str, list[ast.Name]] = {}
    made: dict[str, list[ast.Name]] = {}
    for n in nodes:
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                reads.setdefault(n.id, []).append(n)
            else:
                stores[n.id] = stores.get(n.id, 0) + 1
                made.setdefault(n.id, []).append(n)
        elif isinstance(n, (ast.arg,)):
            stores[n.arg] = stores.get(n.arg, 0) + 1
        elif isinstance(n, FUNC) and n is not f:
            stores[n.name] = stores.get(n.name, 0) + 2
        elif isinstance(n, (ast.ExceptHandler, ast.MatchAs)) and n.name:
            stores[n.name] = stores.get(n.name, 0) + 2

    def local(v: str) -> bool:
        return stores.get(v) == 1 and v not in shared

    def blocks(n: ast.AST) -> Iterator[list[ast.stmt]]:
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, SCOPES) and isinstance(c, (ast.stmt, ast.ExceptHandler, ast.match_case)):
                yield from blocks(c)
        for name in ("body", "orelse", "finalbody"):
            b = getattr(n, name, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b

    alias: dict[str, str] = {}
    for b in blocks(f):
        for s in list(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Name):
                y, x = s.targets[0].id, s.value.id
                x = alias.get(x, x)
                after = {id(n) for t in b[b.index(s) + 1 :] for n in ast.walk(t)}
                if y != x and local(y) and local(x) and all(id(n) in after for n in reads.get(y, [])) and not any(id(n) in after for n in made.get(x, [])) and len(b) > 1:
                    alias[y] = x
                    b.remove(s)
    for n in nodes:
        if isinstance(n, ast.Name) and n.id in alias:
            n.id = alias[n.id]
    if alias:
        variables(f)
        return
    for b in blocks(f):
        i = len(b) - 2
        while i >= 0:
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and local(s.targets[0].id):
                v = s.targets[0].id
                r = reads.get(v, [])
                e = first(t)
                if len(r) == 1 and id(r[0]) not in inner and e is not None and not isinstance(s.value, (ast.Lambda, ast.Yield, ast.YieldFrom, ast.NamedExpr)):
                    parts = order(e)
                    at = next((k for k, x in enumerate(parts) if x is r[0]), None)
                    if at is not None and not any(isinstance(x, (ast.Call, ast.Await)) for x in parts[:at]):
                        Replace(r[0], s.value).visit(t)
                        del b[i]
            i = min(i - 1, len(b) - 2)


def normalise(tree: ast.Module) -> ast.Module:
    return Normalise().visit(tree)
