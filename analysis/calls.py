"Call resolution on the syntax tree (class-hierarchy analysis) and database driver handles."

from __future__ import annotations

import ast
from typing import Iterator, Optional

from .program import ClassInfo, FuncInfo, Module, Program, dotted, walk_own


def self_name(f: FuncInfo) -> Optional[str]:
    g = f
    while g.parent is not None:
        g = g.parent
    if g.cls is None or g.is_static:
        return None
    a = g.args.posonlyargs + g.args.args
    return a[0].arg if a else None


class Calls:
    def __init__(self, prog: Program) -> None:
        self.prog = prog
        self.by_name: dict[str, list[FuncInfo]] = {}
        self.nested: dict[tuple[int, str], FuncInfo] = {}
        for f in prog.functions():
            if f.parent is not None:
                self.nested[(id(f.parent.node), f.name)] = f
            elif f.cls is not None:
                self.by_name.setdefault(f.name, []).append(f)

    def owner_class(self, f: FuncInfo) -> Optional[ClassInfo]:
        g = f
        while g.parent is not None:
            g = g.parent
        return g.cls

    def resolve(self, f: FuncInfo, call: ast.Call) -> list[FuncInfo]:
        return self.resolve_callee(f, call.func)

    def resolve_callee(self, f: FuncInfo, fn: ast.AST) -> list[FuncInfo]:
        if isinstance(fn, ast.Name):
            g: Optional[FuncInfo] = f
            while g is not None:
                n = self.nested.get((id(g.node), fn.id))
                if n is not None:
                    return [n]
                g = g.parent
            r = self.prog.resolve_name(f.module, fn.id)
            if isinstance(r, FuncInfo):
                return [r]
            if isinstance(r, ClassInfo):
                i = r.find_method("__init__")
                return [i] if i is not None else []
            return []
        if isinstance(fn, ast.Attribute):
            cls = self.owner_class(f)
            v = fn.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and cls is not None:
                out = []
                for c in [cls] + cls.all_subclasses():
                    m = c.find_method(fn.attr, after=cls)
                    if m is not None and m not in out:
                        out.append(m)
                return out
            if isinstance(v, ast.Name) and v.id == self_name(f) and cls is not None:
                out = []
                m = cls.find_method(fn.attr)
                if m is not None:
                    out.append(m)
                for s in cls.all_subclasses():
                    if fn.attr in s.methods and s.methods[fn.attr] not in out:
                        out.append(s.methods[fn.attr])
                return out
            d = dotted(fn)
            if d is not None:
                head = d.split(".")[0]
                local = any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == head for n in walk_own(f.node)) or head in [x.arg for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
                if not local:
                    r = self.prog.resolve_expr(f.module, fn)
                    if isinstance(r, FuncInfo):
                        return [r]
                    if isinstance(r, ClassInfo):
                        i = r.find_method("__init__")
                        return [i] if i is not None else []
                    hr = self.prog.resolve_name(f.module, head)
                    if isinstance(hr, str) and hr not in ("self",) and head in f.module.imports:
                        return []  # external module
            return list(self.by_name.get(fn.attr, []))
        return []


HANDLE_METHODS = {"connect", "cursor", "execute", "executemany", "acquire", "create_pool", "Connection", "Cursor", "transaction", "__enter__", "__aenter__", "prepare"}
HANDLE_ATTRS = {"native", "native_connection", "connection", "cursor", "_conn"}
LAZY = {"map", "filter", "iter", "enumerate", "zip", "reversed"}
CONSUMERS = {"list", "tuple", "set", "sorted", "dict", "sum", "next", "any", "all", "min", "max"}


def scope(m: Module) -> str:
    "Package of a dialect, within which handle-valued attributes are recognised by name."
    p = m.name.split(".")
    return ".".join(p[:3]) if p[1:2] == ["dialect"] else m.name


class Driver:
    """
    Flow-insensitive, interprocedural propagation of database driver handles (connections and cursors).

    Sources are calls into a driver module, names, parameters, attributes and properties annotated with a driver type.
    """

    def __init__(self, prog: Program, calls: Calls, roots: set[str]) -> None:
        self.prog = prog
        self.calls = calls
        self.roots = roots
        self.attrs: set[tuple[str, str]] = set()  # (class, attr)
        self.attr_names: set[tuple[str, str]] = set()  # (package, attribute)
        self.tainted: dict[int, set[str]] = {}
        self.returns: set[int] = set()
        self.funcs = list(prog.functions())
        for c in prog.classes():
            for n, a in c.annots.items():
                if self.driver_type(c.module, a):
                    self.attr_names.add((scope(c.module), n))
        for f in self.funcs:
            t = self.tainted.setdefault(id(f.node), set())
            for p in f.args.posonlyargs + f.args.args + f.args.kwonlyargs:
                if p.annotation is not None and self.driver_type(f.module, p.annotation):
                    t.add(p.arg)
            r = getattr(f.node, "returns", None)
            if r is not None and self.driver_type(f.module, r):
                self.returns.add(id(f.node))
                if f.is_property:
                    self.attr_names.add((scope(f.module), f.name))
        changed = True
        while changed:
            changed = False
            for f in self.funcs:
                if self.propagate(f):
                    changed = True

    def driver_type(self, m: Module, a: ast.AST) -> bool:
        for n in ast.walk(a):
            if isinstance(n, (ast.Attribute, ast.Name)):
                r = self.prog.resolve_expr(m, n)
                if isinstance(r, str) and r.split(".")[0] in self.roots and "." in r:
                    last = r.split(".")[-1]
                    if last[:1].isupper() and not last.endswith("Record"):
                        return True
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                if n.value.split(".")[0] in self.roots:
                    return True
        return False

    def module_call(self, f: FuncInfo, call: ast.Call) -> Optional[str]:
        "Dotted name of a driver module function that is called."
        d = dotted(call.func)
        if d is None:
            return None
        r = self.prog.resolve_expr(f.module, call.func)
        if isinstance(r, str) and r.split(".")[0] in self.roots and r.split(".")[0] != r:
            return r
        return None

    def handle(self, f: FuncInfo, e: Optional[ast.AST]) -> bool:
        "True if the expression may denote a connection or cursor of the driver."
        if e is None:
            return False
        if isinstance(e, ast.Name):
            g: Optional[FuncInfo] = f
            while g is not None:
                if e.id in self.tainted.get(id(g.node), ()):
                    return True
                g = g.parent
            return False
        if isinstance(e, ast.Attribute):
            if (scope(f.module), e.attr) in self.attr_names:
                return True
            return e.attr in HANDLE_ATTRS and self.handle(f, e.value)
        if isinstance(e, ast.Await):
            return self.handle(f, e.value)
        if isinstance(e, ast.Call):
            m = self.module_call(f, e)
            if m is not None:
                return m.split(".")[-1] in HANDLE_METHODS
            if isinstance(e.func, ast.Attribute) and self.handle(f, e.func.value):
                return e.func.attr in HANDLE_METHODS
            d = dotted(e.func) or ""
            if d.split(".")[-1] == "cast" and len(e.args) == 2:
                return self.driver_type(f.module, e.args[0]) or self.handle(f, e.args[1])
            if d in LAZY:
                return any(self.handle(f, a) for a in e.args)
            return any(id(g.node) in self.returns for g in self.calls.resolve(f, e))
        if isinstance(e, ast.NamedExpr):
            return self.handle(f, e.value)
        if isinstance(e, ast.IfExp):
            return self.handle(f, e.body) or self.handle(f, e.orelse)
        if isinstance(e, ast.BoolOp):
            return any(self.handle(f, v) for v in e.values)
        if isinstance(e, ast.GeneratorExp):
            return any(self.handle(f, g.iter) for g in e.generators)
        return False

    def propagate(self, f: FuncInfo) -> bool:
        t = self.tainted.setdefault(id(f.node), set())
        n0, r0 = len(t), len(self.returns)
        a0 = len(self.attr_names)
        grew = False

        def bind(target: ast.AST) -> None:
            if isinstance(target, ast.Name):
                t.add(target.id)
            elif isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name) and target.value.id == self_name(f):
                if target.attr not in ("connection",):
                    self.attr_names.add((scope(f.module), target.attr))

        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and self.handle(f, n.value):
                for x in n.targets:
                    bind(x)
            elif isinstance(n, ast.AnnAssign) and (self.driver_type(f.module, n.annotation) and not isinstance(n.annotation, ast.Subscript) or self.handle(f, n.value)):
                bind(n.target)
            elif isinstance(n, ast.NamedExpr) and self.handle(f, n.value):
                bind(n.target)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None and self.handle(f, i.context_expr):
                        bind(i.optional_vars)
            elif isinstance(n, ast.Return) and self.handle(f, n.value):
                self.returns.add(id(f.node))
            elif isinstance(n, ast.Call):
                hs = [i for i, a in enumerate(n.args) if self.handle(f, a)]
                hk = [k.arg for k in n.keywords if k.arg and self.handle(f, k.value)]
                if hs or hk:
                    d = dotted(n.func) or ""
                    if d.split(".")[-1] == "cast":
                        continue
                    for g in self.calls.resolve(f, n):
                        gt = self.tainted.setdefault(id(g.node), set())
                        ps = [p.arg for p in g.args.posonlyargs + g.args.args]
                        off = 1 if g.cls is not None and g.parent is None and not g.is_static else 0
                        for i in hs:
                            if i + off < len(ps) and ps[i + off] not in gt:
                                gt.add(ps[i + off])
                                grew = True
                        for k in hk:
                            if k in ps + [p.arg for p in g.args.kwonlyargs] and k not in gt:
                                gt.add(k)
                                grew = True
        return grew or len(t) != n0 or len(self.returns) != r0 or len(self.attr_names) != a0

    def driver_calls(self, f: FuncInfo) -> Iterator[tuple[ast.AST, str]]:
        "Operations on driver handles performed by the function itself."
        yield from self.operations(f, f.node)

    def operations(self, f: FuncInfo, root: ast.AST) -> Iterator[tuple[ast.AST, str]]:
        "Operations on driver handles in (part of) the function's body; nested functions are not entered."
        for n in walk_own(root):
            if isinstance(n, ast.Call):
                m = self.module_call(f, n)
                if m is not None:
                    if not m.split(".")[-1][:1].isupper() or m.split(".")[-1] in ("Connection",):
                        yield n, m
                elif isinstance(n.func, ast.Attribute) and self.handle(f, n.func.value):
                    yield n, f"<handle>.{n.func.attr}"
                elif isinstance(n.func, ast.Name) and n.func.id in CONSUMERS and any(self.handle(f, a) for a in n.args):
                    yield n, f"{n.func.id}(<handle>)"
            elif isinstance(n, (ast.For, ast.comprehension)) and self.handle(f, n.iter):
                yield n if isinstance(n, ast.For) else n.iter, "for … in <handle>"
            elif isinstance(n, ast.With):
                for i in n.items:
                    if self.handle(f, i.context_expr):
                        yield i.context_expr, "with <handle>"
