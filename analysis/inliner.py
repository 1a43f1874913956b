"""
Puts the bodies of helper functions that the library did not have before back at their call sites, and the values of constants that it did not
have before back where they are used. The rules of the checks talk of the functions that the library has had when they were written (their names
are in names.json); a function with another name is not a place that promises something by itself, but a part of the functions that call it.

A helper is a function at module level or a method that only one class of its class hierarchy has. A call of it is replaced

* anywhere, when its body is a single returned expression;
* in a statement that evaluates the call unconditionally, when its body can be placed before the statement (or instead of it).

Calls that are neither are left alone (the interpreter follows them). A helper that is no longer referred to is removed.
"""

from __future__ import annotations

import ast
import builtins
import copy
import json
import os
from typing import Iterator, Optional

FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
SCOPES = FUNC + (ast.Lambda, ast.ClassDef)
NAMES = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")


def known() -> set[str]:
    with open(NAMES, encoding="utf-8") as f:
        return set(json.load(f))


def collect(trees) -> list[str]:
    "Names of the functions, and of the module and class variables, of the given modules."
    out: set[str] = set()
    for t in trees:
        for n in ast.walk(t):
            if isinstance(n, FUNC):
                out.add(n.name)
            elif isinstance(n, (ast.Module, ast.ClassDef)):
                for s in n.body:
                    for g in s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []:
                        out |= {x.id for x in ast.walk(g) if isinstance(x, ast.Name)}
    return sorted(out)


def own(f: ast.AST) -> Iterator[ast.AST]:
    "Nodes of a function, without those of functions in it."
    st = list(ast.iter_child_nodes(f))
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, SCOPES):
            st.extend(ast.iter_child_nodes(n))


def statements(f) -> list[ast.stmt]:
    b = f.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        return b[1:]
    return b


class Helper:
    def __init__(self, node, module: str, cls: Optional[ast.ClassDef], parent: Optional[ast.AST]) -> None:
        self.node, self.module, self.cls, self.parent = node, module, cls, parent
        decorators = [ast.unparse(d) for d in node.decorator_list]
        self.kind = "function" if cls is None else "static" if "staticmethod" in decorators else "class" if "classmethod" in decorators else "property" if decorators else "method"
        a = node.args
        self.usable = (
            all(d in ("staticmethod", "classmethod", "property") for d in decorators)
            and not a.vararg and not a.kwarg and not a.posonlyargs
            and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) for x in own(node))
            and not (cls is not None and self.kind != "static" and not a.args)
            and not any(isinstance(x, ast.Name) and x.id == node.name or isinstance(x, ast.Attribute) and x.attr == node.name for x in ast.walk(node))
        )
        # as it is now: statements are rewritten in place later
        self.body = copy.deepcopy(statements(node))
        self.expr = self.body[0].value if len(self.body) == 1 and isinstance(self.body[0], ast.Return) and self.body[0].value is not None and not isinstance(node, ast.AsyncFunctionDef) else None

    @property
    def is_async(self) -> bool:
        return isinstance(self.node, ast.AsyncFunctionDef)


def simple(e: ast.expr) -> bool:
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, (ast.Name, ast.Constant))


class Put(ast.NodeTransformer):
    "Replaces names: variables by other names, parameters by expressions."

    def __init__(self, names: dict[str, str], values: dict[str, ast.expr]) -> None:
        self.names, self.values = names, values

    def visit_Name(self, n):
        if n.id in self.values and isinstance(n.ctx, ast.Load):
            return copy.deepcopy(self.values[n.id])
        if n.id in self.names:
            n.id = self.names[n.id]
        return n

    def visit_ExceptHandler(self, n):
        if n.name in self.names:
            n.name = self.names[n.name]
        return self.generic_visit(n)

    def visit_arg(self, n):
        if n.arg in self.names:
            n.arg = self.names[n.arg]
        return n

    def fun(self, n):
        if n.name in self.names:
            n.name = self.names[n.name]
        return self.generic_visit(n)

    visit_FunctionDef = visit_AsyncFunctionDef = fun

    def visit_MatchAs(self, n):
        if n.name in self.names:
            n.name = self.names[n.name]
        return self.generic_visit(n)

    def visit_keyword(self, n):
        n.value = self.visit(n.value)
        return n


def variables(nodes) -> set[str]:
    out: set[str] = set()
    for r in nodes:
        for n in ast.walk(r):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                out.add(n.id)
            elif isinstance(n, FUNC):
                out.add(n.name)
                # keyword calls of inner functions keep their parameters' names
            elif isinstance(n, ast.Lambda):
                out |= {a.arg for a in n.args.args}
            elif isinstance(n, (ast.ExceptHandler, ast.MatchAs)) and n.name:
                out.add(n.name)
    return out


def has_return(s: ast.AST) -> bool:
    return isinstance(s, ast.Return) or any(isinstance(x, ast.Return) for x in own(s)) if not isinstance(s, SCOPES) else False


def ends(body: list[ast.stmt]) -> bool:
    if not body:
        return False
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(s, ast.If):
        return bool(s.orelse) and ends(s.body) and ends(s.orelse)
    if isinstance(s, (ast.With, ast.AsyncWith)):
        return ends(s.body)
    if isinstance(s, ast.Try):
        return ends(s.finalbody) or (ends(s.orelse or s.body) and all(ends(h.body) for h in s.handlers))
    if isinstance(s, ast.Match):
        return all(ends(c.body) for c in s.cases) and any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None for c in s.cases)
    return False


class Unfit(Exception):
    pass


def tail(body: list[ast.stmt], made, budget: list[int]) -> list[ast.stmt]:
    "The statements with every `return e` in place of which stands made(e); what follows a return is not reached."
    out: list[ast.stmt] = []
    for i, s in enumerate(body):
        budget[0] -= 1
        if budget[0] < 0:
            raise Unfit()
        if isinstance(s, ast.Return):
            return out + made(s)
        if isinstance(s, SCOPES) or not has_return(s):
            out.append(s)
            continue
        rest = body[i + 1 :]
        if isinstance(s, ast.If):
            a = s.body if ends(s.body) else s.body + copy.deepcopy(rest)
            b = s.orelse if ends(s.orelse) else s.orelse + copy.deepcopy(rest)
            n = copy.copy(s)
            n.body = tail(a, made, budget) or [ast.copy_location(ast.Pass(), s)]
            n.orelse = tail(b, made, budget)
            return out + [n]
        if rest:
            raise Unfit()
        if isinstance(s, (ast.With, ast.AsyncWith)):
            n = copy.copy(s)
            n.body = tail(s.body, made, budget)
            return out + [n]
        if isinstance(s, ast.Match):
            n = copy.copy(s)
            n.cases = [ast.match_case(c.pattern, c.guard, tail(c.body, made, budget)) for c in s.cases]
            return out + [n]
        raise Unfit()
    return out


class Inliner:
    def __init__(self, trees: dict[str, ast.Module], names: set[str]) -> None:
        self.trees = trees
        self.names = names
        self.count = 0
        self.placed: set[int] = set()
        self.functions: dict[tuple[str, str], Helper] = {}
        self.methods: dict[str, list[Helper]] = {}
        self.classes: dict[str, tuple[str, ast.ClassDef]] = {}
        for m, t in trees.items():
            for n in ast.walk(t):
                if isinstance(n, ast.ClassDef):
                    self.classes.setdefault(n.name, (m, n))

    # -- the class hierarchy, by name

    def bases(self, c: ast.ClassDef) -> list[ast.ClassDef]:
        out, todo = [], [c]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.append(x)
            for b in x.bases:
                n = b.value if isinstance(b, ast.Subscript) else b
                key = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
                if key in self.classes:
                    todo.append(self.classes[key][1])
        return out

    def related(self, a: ast.ClassDef, b: ast.ClassDef) -> bool:
        return a in self.bases(b) or b in self.bases(a)

    # -- helpers

    def find(self) -> None:
        self.functions, self.methods = {}, {}
        for m, t in self.trees.items():
            for f in t.body:
                if isinstance(f, FUNC) and f.name not in self.names:
                    h = Helper(f, m, None, t)
                    if (m, f.name) in self.functions:
                        h.usable = False
                    self.functions[m, f.name] = h
            for c in ast.walk(t):
                if not isinstance(c, ast.ClassDef):
                    continue
                for f in c.body:
                    if isinstance(f, FUNC) and f.name not in self.names and not f.name.startswith("__"):
                        self.methods.setdefault(f.name, []).append(Helper(f, m, c, c))
        for hs in self.methods.values():
            for h in hs:
                if any(g is not h and self.related(g.cls, h.cls) for g in hs):
                    h.usable = False
            # a class below both may see either
            if len(hs) > 1:
                for c in [x[1] for x in self.classes.values()]:
                    seen = [h for h in hs if h.cls in self.bases(c)]
                    if len(seen) > 1:
                        for h in seen:
                            h.usable = False

    def method(self, name: str, cls: Optional[ast.ClassDef]) -> Optional[Helper]:
        if cls is None:
            return None
        up = self.bases(cls)
        hits = [h for h in self.methods.get(name, []) if h.cls in up]
        return hits[0] if len(hits) == 1 and hits[0].usable else None

    # -- calls

    def target(self, n: ast.expr, place: "Place") -> Optional[tuple[Helper, Optional[ast.expr], list[ast.expr], list[ast.keyword]]]:
        "The helper that an expression calls, its receiver and arguments."
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            h = self.method(n.attr, place.cls) if isinstance(n.value, ast.Name) and n.value.id == place.me else None
            return (h, n.value, [], []) if h and h.kind == "property" and self.visible(h, place) else None
        if not isinstance(n, ast.Call):
            return None
        f = n.func
        h, recv = None, None
        if isinstance(f, ast.Name) and f.id in place.inner:
            h = place.inner[f.id]
        elif isinstance(f, ast.Name) and f.id not in place.bound:
            h = self.functions.get((place.module, f.id))
            if h is None:
                src = place.imports.get(f.id)
                h = self.functions.get(src) if src else None
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            if f.value.id == place.me:
                h = self.method(f.attr, place.cls)
            elif f.value.id in self.classes and f.value.id not in place.bound:
                h = self.method(f.attr, self.classes[f.value.id][1])
                if h and h.kind not in ("static", "class"):
                    h = None
            recv = f.value
        if h is None or not h.usable or h.kind == "property" or not self.visible(h, place):
            return None
        if h.kind == "class" and any(isinstance(x, ast.Name) and x.id == h.node.args.args[0].arg and not self.based(x, h.node) for x in ast.walk(h.node)):
            if not (place.me_class or recv is not None and isinstance(recv, ast.Name) and recv.id in self.classes):
                return None
        if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
            return None
        return h, recv, n.args, n.keywords

    def based(self, x: ast.Name, f) -> bool:
        "A name is only used as the base of an attribute."
        return any(isinstance(a, ast.Attribute) and a.value is x for a in ast.walk(f))

    def visible(self, h: Helper, place: "Place") -> bool:
        "The free names of a helper mean the same where it is called."
        if h in place.inner.values():
            return True
        if h.module == place.module:
            return not (self.free(h) & place.bound)
        return all(hasattr(builtins, x) or place.meaning(x) is not None and place.meaning(x) == self.meanings(h.module).get(x) for x in self.free(h))

    def free(self, h: Helper) -> set[str]:
        a = h.node.args
        inside = variables(h.body) | {x.arg for x in a.args + a.kwonlyargs}
        for s in h.body:
            for n in ast.walk(s):
                if isinstance(n, FUNC):
                    inside |= {x.arg for x in n.args.args + n.args.kwonlyargs}
        return {n.id for s in h.body for n in ast.walk(s) if isinstance(n, ast.Name)} - inside

    def meanings(self, module: str) -> dict[str, object]:
        out: dict[str, object] = {}
        parts = module.split(".")
        for s in ast.walk(self.trees[module]):
            if isinstance(s, ast.ImportFrom):
                base = (s.module or "").split(".")[-1]
                for a in s.names:
                    out[a.asname or a.name] = (base, a.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    out[a.asname or a.name] = ("", a.name)
        for s in self.trees[module].body:
            if isinstance(s, FUNC + (ast.ClassDef,)):
                out[s.name] = (parts[-1], s.name)
        return out

    def bind(self, h: Helper, recv, args, keywords) -> Optional[dict[str, ast.expr]]:
        a = h.node.args
        params = [x.arg for x in a.args]
        out: dict[str, ast.expr] = {}
        if h.cls is not None and h.kind != "static":
            if recv is None:
                return None
            out[params.pop(0)] = recv
        if len(args) > len(params):
            return None
        for p, v in zip(params, args):
            out[p] = v
        for k in keywords:
            if k.arg in out or k.arg not in params + [x.arg for x in a.kwonlyargs]:
                return None
            out[k.arg] = k.value
        for p, d in list(zip([x.arg for x in a.args][::-1], a.defaults[::-1])) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p not in out:
                if not isinstance(d, ast.Constant):
                    return None
                out[p] = d
        if any(p not in out for p in params + [x.arg for x in a.kwonlyargs]):
            return None
        return out

    def renaming(self, nodes, values: dict[str, ast.expr], place: "Place") -> dict[str, str]:
        self.count += 1
        inner = variables(nodes) - set(values)
        return {v: f"{v}__{self.count}" for v in inner}

    @staticmethod
    def captured(nodes, env: dict[str, ast.expr], me: Optional[str]) -> bool:
        "An argument that may be another one later is used in a function that is called later."
        for r in nodes:
            for s in ast.walk(r):
                if isinstance(s, (ast.Lambda,) + FUNC) and any(isinstance(x, ast.Name) and x.id in env and not isinstance(env[x.id], ast.Constant) and not (isinstance(env[x.id], ast.Name) and env[x.id].id == me) for x in ast.walk(s)):
                    return True
        return False

    def as_expression(self, h: Helper, env: dict[str, ast.expr], place: "Place") -> Optional[ast.expr]:
        assert h.expr is not None
        if variables([h.expr]) & set(env) or self.captured([h.expr], env, place.me):
            return None
        for p, v in env.items():
            if simple(v):
                continue
            uses = [x for x in ast.walk(h.expr) if isinstance(x, ast.Name) and x.id == p]
            nested = any(isinstance(s, COMPS + (ast.Lambda,)) and any(x is u for u in uses for x in ast.walk(s)) and not self.first_iter(s, uses) for s in ast.walk(h.expr))
            if (len(uses) > 1 or nested) and any(isinstance(x, (ast.Await, ast.Yield, ast.NamedExpr)) or isinstance(x, ast.Call) and len(uses) > 1 for x in ast.walk(v)):
                return None
        self.placed.add(id(h.node))
        e = copy.deepcopy(h.expr)
        return Put(self.renaming([h.expr], env, place), env).visit(e)

    @staticmethod
    def first_iter(s, uses) -> bool:
        return isinstance(s, COMPS) and all(any(x is u for x in ast.walk(s.generators[0].iter)) for u in uses)

    def as_statements(self, h: Helper, env: dict[str, ast.expr], place: "Place", made) -> Optional[list[ast.stmt]]:
        if self.captured(h.body, env, place.me):
            return None
        body = [copy.deepcopy(s) for s in h.body]
        names = self.renaming(body, {}, place)
        values: dict[str, ast.expr] = {}
        before: list[ast.stmt] = []
        stored = variables(body)
        # values of simple expressions may change while the body runs
        changed = {x.attr for s in body for x in ast.walk(s) if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load)}
        for p, v in env.items():
            uses = [x for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == p]
            if p not in stored and (isinstance(v, (ast.Constant, ast.Name)) or simple(v) and not any(isinstance(x, ast.Attribute) and x.attr in changed for x in ast.walk(v))):
                values[p] = v
            elif uses:
                names[p] = f"{p}__{self.count}"
                before.append(ast.copy_location(ast.Assign([ast.copy_location(ast.Name(names[p], ast.Store()), v)], v), v))
        put = Put(names, values)
        body = [put.visit(s) for s in body]
        try:
            out = before + made(body)
        except Unfit:
            return None
        self.placed.add(id(h.node))
        return out

    # -- a function

    def run(self) -> bool:
        changed = False
        for m, t in self.trees.items():
            for place in self.places(m, t):
                if Visit(self, place).function():
                    changed = True
        return changed

    def places(self, module: str, tree: ast.Module) -> Iterator["Place"]:
        meanings = self.meanings(module)
        imports = {}
        for s in ast.walk(tree):
            if isinstance(s, ast.ImportFrom):
                for a in s.names:
                    hits = [k for k in self.functions if k[1] == a.name and k[0].split(".")[-1] == (s.module or "").split(".")[-1]]
                    if len(hits) == 1:
                        imports[a.asname or a.name] = hits[0]

        def nested(f, outer):
            for n in own(f):
                if isinstance(n, FUNC):
                    p = Place(module, None, n, imports, meanings)
                    p.bound |= outer.bound
                    if outer.me is not None and outer.me not in variables(n.body) and outer.me not in {a.arg for a in n.args.args}:
                        p.cls, p.me, p.me_class = outer.cls, outer.me, outer.me_class
                    yield p
                    yield from nested(n, p)

        def visit(node, cls):
            for n in ast.iter_child_nodes(node):
                if isinstance(n, ast.ClassDef):
                    yield from visit(n, n)
                elif isinstance(n, FUNC):
                    p = Place(module, cls, n, imports, meanings)
                    yield p
                    yield from nested(n, p)
                elif not isinstance(n, ast.expr):
                    yield from visit(n, cls)
        yield from visit(tree, None)

    def remove(self) -> None:
        "Helpers that nothing refers to any more."
        refs: set[str] = set()
        for t in self.trees.values():
            for n in ast.walk(t):
                if isinstance(n, ast.Name):
                    refs.add(n.id)
                elif isinstance(n, ast.Attribute):
                    refs.add(n.attr)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                    refs.add(n.value)
        for h in list(self.functions.values()) + [h for hs in self.methods.values() for h in hs]:
            if h.usable and id(h.node) in self.placed and h.node.name not in refs and h.parent is not None and h.node in h.parent.body:  # type: ignore
                h.parent.body.remove(h.node)  # type: ignore
                if not h.parent.body:  # type: ignore
                    h.parent.body.append(ast.copy_location(ast.Pass(), h.node))  # type: ignore


class Place:
    def __init__(self, module: str, cls: Optional[ast.ClassDef], node, imports, meanings) -> None:
        self.module, self.cls, self.node, self.imports, self.meanings_ = module, cls, node, imports, meanings
        decorators = [ast.unparse(d) for d in node.decorator_list]
        self.me = node.args.args[0].arg if cls is not None and "staticmethod" not in decorators and node.args.args else None
        self.me_class = "classmethod" in decorators
        a = node.args
        self.bound = variables(node.body) | {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        if self.me in variables(node.body):
            self.me = None
        # functions in it that are only called
        self.inner: dict[str, Helper] = {}
        for n in own(node):
            if isinstance(n, FUNC):
                refs = [x for x in ast.walk(node) if isinstance(x, ast.Name) and x.id == n.name]
                calls = [x.func for x in own(node) if isinstance(x, ast.Call)]
                h = Helper(n, module, None, None)
                if h.usable and not n.decorator_list and all(any(x is c for c in calls) for x in refs) and sum(1 for m in ast.walk(node) if isinstance(m, FUNC) and m.name == n.name) == 1:
                    self.inner[n.name] = h

    def meaning(self, name: str):
        return None if name in self.bound else self.meanings_.get(name)


class Visit:
    def __init__(self, inl: Inliner, place: Place) -> None:
        self.inl, self.place = inl, place
        self.changed = False

    def function(self) -> bool:
        n = self.place.node
        n.body = self.block(n.body)
        self.place.node.body = self.without(n.body)
        return self.changed

    def without(self, body: list[ast.stmt]) -> list[ast.stmt]:
        "The statements without inner functions that are no longer called."
        refs = {x.id for x in ast.walk(self.place.node) if isinstance(x, ast.Name)}
        gone = [h.node for v, h in self.place.inner.items() if v not in refs]

        def visit(b):
            out = [s for s in b if not any(s is g for g in gone)]
            for s in out:
                for field in ("body", "orelse", "finalbody"):
                    x = getattr(s, field, None)
                    if isinstance(x, list) and x and isinstance(x[0], ast.stmt):
                        setattr(s, field, visit(x))
            return out or [ast.copy_location(ast.Pass(), b[0])] if b else b
        return visit(body) if gone else body

    def block(self, body: list[ast.stmt]) -> list[ast.stmt]:
        out: list[ast.stmt] = []
        for s in body:
            out.extend(self.statement(s))
        return out

    def statement(self, s: ast.stmt) -> list[ast.stmt]:
        if isinstance(s, ast.ClassDef):
            return [s]
        for field in ("body", "orelse", "finalbody"):
            b = getattr(s, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(s, field, self.block(b))
        for h in getattr(s, "handlers", []):
            h.body = self.block(h.body)
        for c in getattr(s, "cases", []):
            c.body = self.block(c.body)
        if isinstance(s, FUNC):
            return [s]
        self.expressions(s)
        return self.hoist(s)

    # expressions in place

    def expressions(self, s: ast.stmt) -> None:
        visit = self

        class E(ast.NodeTransformer):
            def generic_visit(self, n):
                if isinstance(n, ast.stmt) and n is not s:
                    return n
                return super().generic_visit(n)

            def one(self, n):
                n = super().generic_visit(n)
                t = visit.inl.target(n, visit.place)
                if t and t[0].expr is not None and t[0].node is not visit.place.node:
                    env = visit.inl.bind(*t)
                    e = visit.inl.as_expression(t[0], env, visit.place) if env is not None else None
                    if e is not None:
                        visit.changed = True
                        return e
                return n

            visit_Call = visit_Attribute = one

        E().visit(s)

    # statements before

    def hoist(self, s: ast.stmt) -> list[ast.stmt]:
        e: Optional[ast.expr]
        if isinstance(s, (ast.Expr, ast.Return, ast.AnnAssign, ast.AugAssign)):
            e = s.value
        elif isinstance(s, ast.Assign):
            e = s.value
        elif isinstance(s, ast.If):
            e = s.test
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            e = s.iter
        elif isinstance(s, ast.Raise):
            e = s.exc
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            e = s.items[0].context_expr
        else:
            return [s]
        if e is None:
            return [s]
        # the whole value of the statement
        inner = e.value if isinstance(e, ast.Await) else e
        t = self.inl.target(inner, self.place)
        if t and t[0].node is not self.place.node and t[0].is_async == isinstance(e, ast.Await):
            h = t[0]
            env = self.inl.bind(*t)
            if env is not None:
                if isinstance(s, ast.Return):
                    r = self.inl.as_statements(h, env, self.place, lambda b: b if ends(b) else b + [ast.copy_location(ast.Return(None), s)])
                elif isinstance(s, ast.Expr):
                    r = self.inl.as_statements(h, env, self.place, lambda b: tail(b, lambda x: [ast.copy_location(ast.Expr(x.value), x)] if x.value is not None and not isinstance(x.value, (ast.Constant, ast.Name)) else [], [200]))
                elif isinstance(s, (ast.Assign, ast.AnnAssign)) and all(isinstance(g, (ast.Name, ast.Tuple)) for g in (s.targets if isinstance(s, ast.Assign) else [s.target])):
                    def assign(x):
                        n = copy.deepcopy(s)
                        n.value = x.value if x.value is not None else ast.copy_location(ast.Constant(None), x)
                        return [n]
                    def closed(b):
                        if not ends(b):
                            b = b + [ast.copy_location(ast.Return(None), s)]
                        return tail(b, assign, [200])
                    r = self.inl.as_statements(h, env, self.place, closed)
                else:
                    r = None
                if r is not None:
                    self.changed = True
                    return r or [ast.copy_location(ast.Pass(), s)]
        # a part of it
        for n in self.unconditional(e):
            inner = n.value if isinstance(n, ast.Await) else n
            t = self.inl.target(inner, self.place)
            if not t or t[0].node is self.place.node or t[0].is_async != isinstance(n, ast.Await):
                continue
            env = self.inl.bind(*t)
            if env is None:
                continue
            self.inl.count += 1
            var = f"part__{self.inl.count}"

            def assign(x, var=var):
                return [ast.copy_location(ast.Assign([ast.copy_location(ast.Name(var, ast.Store()), x)], x.value or ast.copy_location(ast.Constant(None), x)), x)]

            def closed(b):
                if not ends(b):
                    b = b + [ast.copy_location(ast.Return(None), s)]
                return tail(b, assign, [200])
            r = self.inl.as_statements(t[0], env, self.place, closed)
            if r is None:
                continue
            if r and isinstance(r[-1], ast.Assign) and isinstance(r[-1].targets[0], ast.Name) and r[-1].targets[0].id == var:
                value = r.pop().value
            else:
                value = ast.copy_location(ast.Name(var, ast.Load()), n)
            self.replace(s, n, value)
            self.changed = True
            return r + self.hoist(s)
        return [s]

    def unconditional(self, e: ast.expr) -> Iterator[ast.expr]:
        st = [e]
        while st:
            n = st.pop()
            yield n
            if isinstance(n, (ast.Lambda, ast.NamedExpr, ast.Yield, ast.YieldFrom)):
                continue
            if isinstance(n, COMPS):
                st.append(n.generators[0].iter)
            elif isinstance(n, ast.BoolOp):
                st.append(n.values[0])
            elif isinstance(n, ast.IfExp):
                st.append(n.test)
            elif isinstance(n, ast.Compare) and len(n.ops) > 1:
                st.append(n.left)
            else:
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, ast.expr):
                        st.append(c)
                    elif isinstance(c, ast.keyword):
                        st.append(c.value)

    @staticmethod
    def replace(s: ast.stmt, old: ast.expr, new: ast.expr) -> None:
        class R(ast.NodeTransformer):
            def visit(self, n):
                return new if n is old else self.generic_visit(n) if not isinstance(n, ast.stmt) or n is s else n
        R().visit(s)


# -- constants


def literal(e: ast.expr) -> bool:
    if isinstance(e, ast.Constant):
        return True
    if isinstance(e, ast.JoinedStr):
        return False
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return all(literal(x) for x in e.elts)
    if isinstance(e, ast.Dict):
        return all(k is not None and literal(k) for k in e.keys) and all(literal(v) for v in e.values)
    if isinstance(e, ast.UnaryOp):
        return literal(e.operand)
    return isinstance(e, ast.BinOp) and literal(e.left) and literal(e.right)


def fold(trees: dict[str, ast.Module], names: set[str]) -> None:
    for m, t in trees.items():
        found: dict[str, ast.expr] = {}
        sites: dict[str, list] = {}
        for s in t.body:
            g = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) else None
            if isinstance(g, ast.Name) and getattr(s, "value", None) is not None and g.id not in names and not g.id.startswith("__"):
                sites.setdefault(g.id, []).append(s)
        for v, ss in sites.items():
            stores = [n for n in ast.walk(t) if isinstance(n, ast.Name) and n.id == v and not isinstance(n.ctx, ast.Load)]
            if len(stores) == 1 and (literal(ss[0].value) or constant_of_types(ss[0].value)) and not any(isinstance(n, ast.arg) and n.arg == v for n in ast.walk(t)) and not any(isinstance(n, ast.Global) and v in n.names for n in ast.walk(t)):
                if isinstance(ss[0].value, (ast.List, ast.Dict, ast.Set)) and mutated(t, v):
                    continue
                found[v] = ss[0].value
        if found:
            class F(ast.NodeTransformer):
                def visit_Name(self, n):
                    if n.id in found and isinstance(n.ctx, ast.Load):
                        return ast.copy_location(copy.deepcopy(found[n.id]), n)
                    return n
            t.body = [s if isinstance(s, (ast.Import, ast.ImportFrom)) else F().visit(s) for s in t.body]
            t.body = [s for s in t.body if not (isinstance(s, (ast.Assign, ast.AnnAssign)) and any(s is sites[v][0] for v in found))]
        # of classes
        for c in [n for n in ast.walk(t) if isinstance(n, ast.ClassDef)]:
            if any("dataclass" in ast.unparse(d) for d in c.decorator_list) or any(ast.unparse(b).rpartition(".")[2] in ("Enum", "IntEnum", "StrEnum", "NamedTuple", "TypedDict", "Protocol") for b in c.bases):
                continue
            mine: dict[str, ast.expr] = {}
            for s in c.body:
                g = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) and "ClassVar" in ast.unparse(s.annotation) else None
                if isinstance(g, ast.Name) and s.value is not None and g.id not in names and not g.id.startswith("__") and literal(s.value):
                    mine[g.id] = s.value
            for v in list(mine):
                others = sum(1 for x in trees.values() for n in ast.walk(x) if isinstance(n, ast.ClassDef) for s in n.body for g in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []) if isinstance(g, ast.Name) and g.id == v)
                stores = any(isinstance(n, ast.Attribute) and n.attr == v and not isinstance(n.ctx, ast.Load) for x in trees.values() for n in ast.walk(x))
                if others != 1 or stores or isinstance(mine[v], (ast.List, ast.Dict, ast.Set)) and mutated(t, v):
                    del mine[v]
            if mine:
                class G(ast.NodeTransformer):
                    def visit_Attribute(self, n):
                        if n.attr in mine and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls", c.name):
                            return ast.copy_location(copy.deepcopy(mine[n.attr]), n)
                        return self.generic_visit(n)
                G().visit(t)
    for t in trees.values():
        Texts().visit(t)


def constant_of_types(e: ast.expr) -> bool:
    "A tuple of names of types."
    return isinstance(e, ast.Tuple) and bool(e.elts) and all(simple(x) and not isinstance(x, ast.Constant) for x in e.elts)


def mutated(t: ast.AST, v: str) -> bool:
    def named(x):
        return isinstance(x, ast.Name) and x.id == v or isinstance(x, ast.Attribute) and x.attr == v
    return any(
        isinstance(n, ast.Attribute) and named(n.value) and n.attr in ("append", "extend", "add", "update", "pop", "clear", "insert", "remove", "setdefault")
        or isinstance(n, ast.Subscript) and named(n.value) and not isinstance(n.ctx, ast.Load)
        or isinstance(n, ast.Return) and n.value is not None and named(n.value)
        for n in ast.walk(t)
    )


class Texts(ast.NodeTransformer):
    "Constants placed in formatted strings become part of their text."

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        if not any(isinstance(v, ast.FormattedValue) and isinstance(v.value, (ast.Constant, ast.JoinedStr)) and v.format_spec is None and v.conversion == -1 for v in n.values):
            return n
        out: list[ast.expr] = []
        def text(v):
            if out and isinstance(out[-1], ast.Constant):
                out[-1] = ast.copy_location(ast.Constant(out[-1].value + v.value), out[-1])
            else:
                out.append(v)
        for v in n.values:
            if isinstance(v, ast.Constant):
                text(v)
            elif isinstance(v, ast.FormattedValue) and v.format_spec is None and v.conversion == -1 and isinstance(v.value, ast.Constant) and isinstance(v.value.value, (str, int)) and not isinstance(v.value.value, bool):
                text(ast.copy_location(ast.Constant(str(v.value.value)), v))
            elif isinstance(v, ast.FormattedValue) and v.format_spec is None and v.conversion == -1 and isinstance(v.value, ast.JoinedStr):
                for w in v.value.values:
                    text(w) if isinstance(w, ast.Constant) else out.append(w)
            else:
                out.append(v)
        n.values = out
        return n


def inline(trees: dict[str, ast.Module]) -> None:
    names = known()
    inl = Inliner(trees, names)
    for _ in range(8):
        inl.find()
        if not inl.run():
            break
    inl.remove()
    fold(trees, names)
