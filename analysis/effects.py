"""
Which objects a function modifies.

A flow-sensitive analysis over the syntax tree, with a summary for each function that is iterated to a fixpoint. A value is described by
where it comes from: it is fresh (made by the function itself), a parameter, something reached through a parameter, or a module-level
object; what can be reached from a fresh object (what has been stored in it, or what a shallow copy shares with its original) is tracked
as its contents.
"""

from __future__ import annotations

import ast
from typing import Iterable, NamedTuple, Optional

from .calls import Calls
from .interp import Interp
from .program import ClassInfo, FuncInfo, Program, dotted
from .types import ANY, BOOL, BYTES, FLOAT, INT, STR, Ty, alts, strip_none, union

MUTATING = {"append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "setdefault", "sort", "reverse", "add", "discard",
            "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__", "__setattr__", "appendleft", "popleft", "extendleft"}
STORING = {"append", "extend", "insert", "update", "setdefault", "add", "__setitem__"}
TEXT = {"split", "join", "format", "encode", "decode", "replace", "strip", "rstrip", "lstrip", "lower", "upper", "startswith", "endswith", "index", "count", "find", "isoformat", "hexdigest"}
VIEWS = {"copy", "keys", "values", "items", "union", "difference", "intersection", "symmetric_difference"}
F = ("F",)


SCALAR = (STR, INT, BOOL, BYTES, FLOAT)
BUILTIN = {"get", "items", "keys", "values", "pop", "append", "extend", "add", "update", "clear", "remove", "sort", "insert", "copy", "join", "format", "split", "index", "count", "setdefault", "execute", "close"}


class V(NamedTuple):
    s: frozenset = frozenset([F])
    c: frozenset = frozenset()
    ty: Ty = ANY


FRESH = V()


def closed(c: Iterable) -> frozenset:
    out = set()
    for o in c:
        if o == F:
            continue
        out.add(o)
        if o[0] == "p":
            out.add(("d", o[1], "*"))
    return frozenset(out)


# a list that nothing has been stored in yet
EMPTY = Ty("ext", "list", (Ty("never"),))


def join(*vs: V) -> V:
    if not vs:
        return FRESH
    ts = [v.ty for v in vs if v.ty != EMPTY] if any(v.ty.is_ext("list", "set") and v.ty != EMPTY for v in vs) else [v.ty for v in vs]
    ty = ANY if any(t.kind == "any" for t in ts) else union(ts)
    return V(frozenset().union(*[v.s for v in vs]), frozenset().union(*[v.c for v in vs]), ty)


def typed(v: V, ty: Ty) -> V:
    "A value of a known type; scalar values cannot be modified."
    if ty.kind == "any":
        return v
    if scalar(ty):
        return V(ty=ty)
    return V(v.s, v.c, ty)


def scalar(ty: Ty) -> bool:
    return all(t in SCALAR or t.kind == "none" for t in alts(strip_none(ty)))


def contents(v: V, attr: str = "[]") -> frozenset:
    "What an element or attribute of the value may be."
    out = set(v.c)
    for o in v.s:
        if o[0] == "p":
            out.discard(("d", o[1], "*"))
            out.add(("d", o[1], attr))
        elif o != F:
            out.add(o)
    return closed(out)


def part(v: V, attr: str = "[]") -> V:
    c = contents(v, attr)
    return V(c | ({F} if F in v.s else frozenset()) or frozenset([F]), c)


class Summary:
    def __init__(self) -> None:
        self.effects: dict[tuple, ast.AST] = {}  # (origin, what) -> where
        self.via: dict[tuple, tuple[FuncInfo, tuple]] = {}  # the effect of a callee that this is
        self.stores: dict[tuple, ast.AST] = {}  # (origin of target, origin of value) -> where
        self.value = V(frozenset(), frozenset())

    def key(self) -> tuple:
        return len(self.effects), len(self.stores), self.value.s, self.value.c


class Effects:
    def __init__(self, prog: Program) -> None:
        self.prog, self.calls = prog, Calls(prog)
        self.it = Interp(prog)
        self.log: dict[int, dict[int, tuple[FuncInfo, ast.Call, Optional[V]]]] = {}  # calls of a function
        self.tr = self.it.tr
        self.funcs = [f for f in prog.functions() if f.parent is None]
        self.properties: dict[str, list[FuncInfo]] = {}
        for f in self.funcs:
            if f.cls is not None and any(isinstance(d, ast.Name) and d.id in ("property", "cached_property") or isinstance(d, ast.Attribute) and d.attr in ("cached_property",) for d in f.node.decorator_list):
                self.properties.setdefault(f.name, []).append(f)
        self.callable: set[str] = set()
        for c in prog.classes():
            for n in c.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and ast.unparse(n.annotation).replace("typing.", "").replace("Optional[", "").startswith(("type", "Type", "Callable")):
                    self.callable.add(n.target.id)
        self.of: dict[int, Summary] = {id(f.node): Summary() for f in self.funcs}
        self.rounds = 0
        changed = True
        while changed and self.rounds < 12:
            changed = False
            self.rounds += 1
            for f in self.funcs:
                before = self.of[id(f.node)].key()
                Body(self, f).run()
                changed = changed or self.of[id(f.node)].key() != before

    def summary(self, f: FuncInfo) -> Summary:
        return self.of.get(id(f.node)) or Summary()


class Body:
    def __init__(self, eff: Effects, f: FuncInfo) -> None:
        self.eff, self.f = eff, f
        self.sum = eff.of[id(f.node)]
        self.returns: list[V] = []
        self.local: dict[str, ast.FunctionDef | ast.AsyncFunctionDef] = {}
        self.depth = 0

    def run(self) -> None:
        a = self.f.args
        env: dict[str, V] = {}
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y is not None]:
            ty = self.eff.it.param_type(self.f, x.arg)
            if x.arg == self.me() and self.f.cls is not None and not self.f.is_static:
                ty = Ty("type", None, (Ty("cls", self.f.cls),)) if x.arg == "cls" else Ty("cls", self.f.cls)
            env[x.arg] = typed(V(frozenset([("p", x.arg)]), frozenset([("d", x.arg, "*")])), ty)
        self.block(self.f.node.body, env)
        self.sum.value = join(self.sum.value, *self.returns) if self.returns else self.sum.value

    # effects

    def mutate(self, v: V, what: str, node: ast.AST, value: Optional[V] = None) -> None:
        for o in v.s:
            if o == F:
                continue
            self.sum.effects.setdefault((o, what), node)
            if value is not None:
                for x in closed(value.s | value.c):
                    self.sum.stores.setdefault((o, x), node)

    def store(self, base: ast.expr, value: V, env: dict) -> None:
        "What is stored in an object can be reached from it."
        while isinstance(base, (ast.Attribute, ast.Subscript)):
            base = base.value
        if isinstance(base, ast.Name) and base.id in env:
            v = env[base.id]
            if F in v.s:
                env[base.id] = V(v.s, v.c | closed(value.s | value.c), v.ty)
            if v.ty == EMPTY:
                env[base.id] = env[base.id]._replace(ty=ANY)

    # statements

    def block(self, body: list[ast.stmt], env: dict) -> bool:
        "Whether the end is reached."
        for s in body:
            if not self.stmt(s, env):
                return False
        return True

    def merge(self, env: dict, branches: list[dict]) -> None:
        if not branches:
            return
        names = set().union(*branches)
        for n in names:
            env[n] = join(*[b[n] for b in branches if n in b])

    def stmt(self, s: ast.stmt, env: dict) -> bool:
        if isinstance(s, ast.Expr):
            self.eval(s.value, env)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return True
            v = self.eval(s.value, env)
            if isinstance(s, ast.AnnAssign):
                v = typed(v, self.eff.tr.annot(self.f.module, s.annotation))
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                self.assign(t, v, env, s)
        elif isinstance(s, ast.AugAssign):
            v = self.eval(s.value, env)
            if isinstance(s.target, ast.Name):
                old = env.get(s.target.id, FRESH)
                if not (v.ty.kind != "any" and scalar(v.ty)):
                    self.mutate(old, "+=", s, part(v))
                env[s.target.id] = V(old.s, old.c | contents(v), ANY if old.ty == EMPTY else old.ty)
            else:
                self.assign(s.target, v, env, s)
        elif isinstance(s, ast.If):
            self.eval(s.test, env)
            branches = []
            for body, positive in ((s.body, True), (s.orelse, False)):
                e = dict(env)
                self.narrow(s.test, positive, e)
                if self.block(body, e):
                    branches.append(e)
            self.merge(env, branches)
            return bool(branches)
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            for _ in range(3):
                e = dict(env)
                if isinstance(s, ast.While):
                    self.eval(s.test, e)
                else:
                    self.assign(s.target, self.element(self.eval(s.iter, e)), e, s)
                self.block(s.body, e)
                self.merge(env, [env, e])
            self.block(s.orelse, env)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.eval(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, s)
            return self.block(s.body, env)
        elif isinstance(s, ast.Try):
            e = dict(env)
            end = self.block(s.body, e) and self.block(s.orelse, e)
            branches = [e] if end else []
            for h in s.handlers:
                e2 = {n: join(*[x[n] for x in (env, e) if n in x]) for n in set(env) | set(e)}
                if self.block(h.body, e2):
                    branches.append(e2)
            self.merge(env, branches)
            self.block(s.finalbody, env)
            return bool(branches)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.returns.append(self.eval(s.value, env))
            return False
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.eval(s.exc, env)
            return False
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    self.mutate(self.eval(t.value, env), t.attr if isinstance(t, ast.Attribute) else "[]", s)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            v = self.nested(s, env, {})
            self.local[s.name] = s
            env[s.name] = V(frozenset([F]), closed(v.s | v.c))
        elif isinstance(s, ast.Assert):
            self.eval(s.test, env)
        elif isinstance(s, (ast.Break, ast.Continue)):
            # the state after the loop is joined with that of its body anyway
            return True
        elif isinstance(s, ast.Match):
            v = self.eval(s.subject, env)
            branches = [dict(env)]
            for case in s.cases:
                e = dict(env)
                for n in ast.walk(case.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        e[n.name] = join(v, part(v))
                if self.block(case.body, e):
                    branches.append(e)
            self.merge(env, branches)
        return True

    def narrow(self, test: ast.expr, positive: bool, env: dict) -> None:
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            self.narrow(test.operand, not positive, env)
        elif isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) == positive:
            for x in test.values:
                self.narrow(x, positive, env)
        elif positive and isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and isinstance(test.args[0], ast.Name) and test.args[0].id in env:
            ts = [self.eff.tr.annot(self.f.module, t) for t in (test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]])]
            env[test.args[0].id] = typed(env[test.args[0].id], union(ts) if all(t.kind != "any" for t in ts) else ANY)

    def element(self, v: V, attr: str = "[]") -> V:
        "What is enumerated in the value."
        return typed(part(v, attr), self.elem(v.ty))

    def elem(self, ty: Ty) -> Ty:
        return ANY if ty == EMPTY else self.eff.tr.elem(ty)

    def member(self, v: V, name: str) -> V:
        "An attribute of the value."
        if name in ("__module__", "__name__", "__qualname__", "__doc__"):
            return V(ty=STR)
        ts = []
        for t in alts(strip_none(v.ty)):
            t = self.eff.tr.subst(t, None)
            if t.kind == "typevar" and t.args:
                t = t.args[0]
            if t.kind != "cls":
                return part(v, name)
            c: ClassInfo = t.ref  # type: ignore
            m = c.find_method(name)
            if m is not None:
                ts.append(self.eff.tr.ret(m, t) if m.is_property else ANY)
                continue
            an = c.find_annot(name)
            ts.append(self.eff.tr.subst(self.eff.tr.annot(an[1], an[0]), t) if an is not None else self.eff.it.infer_attr(c, name))
        return typed(part(v, name), union(ts) if ts and all(t.kind != "any" for t in ts) else ANY)

    def methods(self, v: V, name: str) -> Optional[list[FuncInfo]]:
        "The methods of that name that a value of its type may have; None if the type is unknown."
        out: list[FuncInfo] = []
        for t in alts(strip_none(v.ty)):
            if t.kind == "typevar" and t.args:
                t = t.args[0]
            if t.kind == "type" and t.args:
                t = t.args[0]
            if t.kind in ("ext", "tuple", "func", "module", "none"):
                continue
            if t.kind != "cls":
                return None
            c: ClassInfo = t.ref  # type: ignore
            m = c.find_method(name)
            for g in ([m] if m is not None else []) + [s.methods[name] for s in c.all_subclasses() if name in s.methods]:
                if g not in out:
                    out.append(g)
        return out

    def nested(self, s: ast.FunctionDef | ast.AsyncFunctionDef, env: dict, given: dict[str, V]) -> V:
        "A local function that is called with the arguments given."
        if self.depth > 3:
            return FRESH
        e = dict(env)
        for x in s.args.posonlyargs + s.args.args + s.args.kwonlyargs:
            e[x.arg] = given.get(x.arg) or typed(FRESH, self.eff.tr.annot(self.f.module, x.annotation))
        keep, self.returns = self.returns, []
        self.depth += 1
        self.block(s.body, e)
        self.depth -= 1
        r, self.returns = self.returns, keep
        return join(*r)

    def assign(self, t: ast.expr, v: V, env: dict, node: ast.AST) -> None:
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                i = t.elts.index(x)
                ts = v.ty.args if v.ty.is_ext("tuple") and len(v.ty.args) == len(t.elts) else None
                self.assign(x.value if isinstance(x, ast.Starred) else x, typed(part(v), ts[i]) if ts else self.element(v), env, node)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            base = self.eval(t.value, env)
            if isinstance(t, ast.Subscript):
                self.eval(t.slice, env)
            self.mutate(base, t.attr if isinstance(t, ast.Attribute) else "[]", node, v)
            self.store(t.value, v, env)

    # expressions

    def eval(self, e: Optional[ast.expr], env: dict) -> V:
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr)):
            for c in ast.walk(e) if e is not None else ():
                if isinstance(c, ast.FormattedValue):
                    self.eval(c.value, env)
            if isinstance(e, ast.JoinedStr):
                return V(ty=STR)
            kinds = {str: STR, int: INT, bool: BOOL, bytes: BYTES, float: FLOAT}
            return V(ty=kinds.get(type(e.value), ANY)) if e is not None else FRESH
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return self.global_(e)
        if isinstance(e, ast.Attribute):
            v = self.eval(e.value, env)
            gs = self.methods(v, e.attr)
            for g in self.eff.properties.get(e.attr, ()):
                if gs is None or g in gs:
                    self.apply(g, [v], {}, e, env)
            return self.member(v, e.attr)
        if isinstance(e, ast.Subscript):
            self.eval(e.slice, env)
            v = self.eval(e.value, env)
            if isinstance(e.slice, ast.Slice):
                return V(frozenset([F]), contents(v), v.ty)
            ty = strip_none(v.ty)
            if ty.is_ext("dict", "defaultdict") and len(ty.args) == 2:
                return typed(part(v), ty.args[1])
            return self.element(v)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            vs = [part(self.eval(x.value, env)) if isinstance(x, ast.Starred) else self.eval(x, env) for x in e.elts]
            ts = [v.ty if not isinstance(x, ast.Starred) else None for x, v in zip(e.elts, vs)]
            ts = [t if t is not None else self.elem(self.eval(x.value, env).ty) for x, t in zip(e.elts, ts)]
            ty = ANY if any(t.kind == "any" for t in ts) else Ty("ext", "tuple", tuple(ts)) if isinstance(e, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in e.elts) else Ty("ext", "list", (union(ts),)) if ts else EMPTY
            return V(frozenset([F]), closed(o for v in vs for o in v.s | v.c), ty)
        if isinstance(e, ast.Dict):
            vs = [self.eval(x, env) for x in e.values] + [self.eval(x, env) for x in e.keys if x is not None]
            return V(frozenset([F]), closed(o for v in vs for o in v.s | v.c))
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = dict(env)
            for g in e.generators:
                self.assign(g.target, self.element(self.eval(g.iter, inner)), inner, e)
                for c in g.ifs:
                    self.eval(c, inner)
                    self.narrow(c, True, inner)
            vs = [self.eval(x, inner) for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt])]
            ty = Ty("ext", "dict", (vs[0].ty, vs[1].ty)) if isinstance(e, ast.DictComp) else Ty("ext", "list", (vs[0].ty,))
            return V(frozenset([F]), closed(o for v in vs for o in v.s | v.c), ty)
        if isinstance(e, ast.IfExp):
            self.eval(e.test, env)
            yes, no = dict(env), dict(env)
            self.narrow(e.test, True, yes)
            self.narrow(e.test, False, no)
            return join(self.eval(e.body, yes), self.eval(e.orelse, no))
        if isinstance(e, ast.BoolOp):
            inner, vs = dict(env), []
            for x in e.values:
                vs.append(self.eval(x, inner))
                self.narrow(x, isinstance(e.op, ast.And), inner)
            return join(*vs)
        if isinstance(e, ast.NamedExpr):
            v = self.eval(e.value, env)
            env[e.target.id] = v
            return v
        if isinstance(e, (ast.Await, ast.Starred)):
            return self.eval(e.value, env)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            v = self.eval(e.value, env)
            if isinstance(e, ast.YieldFrom):
                v = part(v)
            self.returns.append(V(frozenset([F]), closed(v.s | v.c)))
            return FRESH
        if isinstance(e, ast.Lambda):
            inner = dict(env)
            for x in e.args.posonlyargs + e.args.args + e.args.kwonlyargs:
                inner[x.arg] = FRESH
            v = self.eval(e.body, inner)
            return V(frozenset([F]), closed(v.s | v.c))
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, (ast.BinOp,)):
            a, b = self.eval(e.left, env), self.eval(e.right, env)
            return V(frozenset([F]), contents(a) | contents(b), a.ty)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.eval(c, env)
        return FRESH

    def global_(self, e: ast.Name) -> V:
        r = self.eff.prog.resolve_name(self.f.module, e.id)
        if isinstance(r, ClassInfo):
            return V(frozenset([("G", r.name)]), frozenset([("G", r.name)]))
        if isinstance(r, FuncInfo):
            return FRESH
        for n in self.f.module.tree.body:
            targets = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []
            if any(isinstance(t, ast.Name) and t.id == e.id for t in targets):
                return V(frozenset([("G", e.id)]), frozenset([("G", e.id)]))
        return FRESH

    def call(self, e: ast.Call, env: dict) -> V:
        pos = [part(self.eval(a.value, env)) if isinstance(a, ast.Starred) else self.eval(a, env) for a in e.args]
        kw = {k.arg: self.eval(k.value, env) for k in e.keywords}
        name = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ""
        everything = pos + list(kw.values())
        arguments = closed(o for v in everything for o in v.s | v.c)
        r = self.eff.prog.resolve_expr(self.f.module, e.func) if (d := dotted(e.func)) is not None and d.split(".")[0] not in env else None
        if isinstance(r, ClassInfo):
            init = r.find_method("__init__")
            if init is not None:
                self.apply(init, [FRESH] + pos, kw, e, env)
            return V(frozenset([F]), arguments, Ty("cls", r))
        short = r.rsplit(".", 1)[-1] if isinstance(r, str) else name if isinstance(e.func, ast.Name) else ""
        if short == "deepcopy":
            return V(ty=pos[0].ty) if pos else FRESH
        if short in ("copy", "replace") and isinstance(r, str) and r.split(".")[0] in ("copy", "dataclasses"):
            return V(frozenset([F]), contents(pos[0]) | closed(o for v in kw.values() for o in v.s | v.c), pos[0].ty) if pos else FRESH
        if isinstance(e.func, ast.Name) and e.func.id not in env and not isinstance(r, FuncInfo) or isinstance(r, str):
            if short == "cast" and len(pos) == 2:
                return typed(pos[1], self.eff.tr.annot(self.f.module, e.args[0]))
            if short in ("heapify", "heappush", "heappop", "shuffle", "insort") and pos:
                self.mutate(pos[0], f"{short}()", e, pos[-1])
                return FRESH
            if short == "setattr" and pos:
                self.mutate(pos[0], "setattr", e, pos[-1])
                self.store(e.args[0], pos[-1], env)
                return FRESH
            if short == "delattr" and pos:
                self.mutate(pos[0], "delattr", e)
                return FRESH
            if short in ("getattr", "next", "min", "max", "vars") and pos:
                return join(*[part(v) for v in pos])
            if short in ("list", "set", "tuple", "sorted", "reversed", "iter", "frozenset") and len(pos) == 1:
                return V(frozenset([F]), contents(pos[0]), pos[0].ty if pos[0].ty == EMPTY else Ty("ext", "list", (self.elem(pos[0].ty),)))
            if short in ("list", "set", "tuple", "dict", "sorted", "reversed", "filter", "zip", "enumerate", "iter", "frozenset", "map", "chain"):
                return V(frozenset([F]), frozenset().union(*[contents(v) for v in everything]) if everything else frozenset())
            if short in ("str", "repr", "len", "isinstance", "int", "bool", "type", "hash", "id", "any", "all", "sum", "issubclass", "print", "range", "callable", "hasattr"):
                return FRESH
            if short == "super":
                return env.get(self.me(), FRESH)
            if not isinstance(r, FuncInfo) and not self.eff.calls.resolve(self.f, e):
                # a function of another package: no effects on its arguments are assumed
                return V(frozenset([F]), arguments)
        recv: Optional[V] = None
        known: Optional[list[FuncInfo]] = None
        if isinstance(e.func, ast.Attribute):
            v = e.func.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                recv = env.get(self.me(), FRESH)
            elif not (isinstance(r, FuncInfo)):
                recv = self.eval(v, env)
                known = self.methods(recv, name)
        elif isinstance(e.func, ast.Name) and e.func.id in env:
            if e.func.id in self.local:
                n = self.local[e.func.id]
                return self.nested(n, env, {**{x.arg: v for x, v in zip(n.args.posonlyargs + n.args.args, pos)}, **{k: v for k, v in kw.items() if k is not None}})
            # a local function returns what it refers to; a class or function that is given makes something of its arguments
            v2 = env[e.func.id]
            return V(v2.c | {F}, v2.c | arguments) if v2.s == FRESH.s else V(frozenset([F]), arguments)
        targets = known if known is not None else [] if recv is not None and recv.ty.kind == "any" and name in BUILTIN else self.eff.calls.resolve(self.f, e)
        if isinstance(e.func, ast.Attribute) and recv is not None and any(g.is_property for g in targets):
            # a class or function that is the value of a property
            v = self.eval(e.func, env)
            ty = strip_none(v.ty)
            return V(frozenset([F]), arguments, ty.args[0] if ty.kind == "type" and ty.args else ANY)
        out: list[V] = []
        for g in targets:
            self.eff.log.setdefault(id(g.node), {})[id(e)] = (self.f, e, recv)
            bound = g.cls is not None and not g.is_static
            cls_call = isinstance(r, FuncInfo) and g.cls is not None
            args = ([recv] if bound and recv is not None and not cls_call else []) + pos
            out.append(typed(self.apply(g, args, kw, e, env), self.eff.tr.ret(g, recv.ty if recv is not None and recv.ty.kind == "cls" else None)))
        if recv is not None:
            if name in MUTATING and not (known and targets):
                value = join(*(everything[1:] if name == "setdefault" else everything)) if everything and name in STORING else None
                self.mutate(recv, f"{name}()", e, value)
                if value is not None:
                    self.store(e.func.value, value, env)
            if not targets:
                if name in TEXT:
                    out.append(FRESH)
                elif name in self.eff.callable:
                    out.append(V(frozenset([F]), arguments))
                elif name in VIEWS:
                    ty = strip_none(recv.ty)
                    args = ty.args if ty.is_ext("dict", "defaultdict") and len(ty.args) == 2 else ()
                    kind = Ty("ext", "list", (Ty("ext", "tuple", args) if name == "items" else args[1] if name == "values" else args[0],)) if args and name in ("items", "values", "keys") else ty if name == "copy" else ANY
                    out.append(V(frozenset([F]), contents(recv), kind))
                else:
                    ty = strip_none(recv.ty)
                    out.append(typed(part(recv), ty.args[1] if name in ("get", "pop", "setdefault") and ty.is_ext("dict", "defaultdict") and len(ty.args) == 2 else ANY))
        return join(*out) if out else FRESH

    def me(self) -> str:
        a = self.f.args.posonlyargs + self.f.args.args
        return a[0].arg if a else ""

    def apply(self, g: FuncInfo, pos: list[V], kw: dict, node: ast.AST, env: dict) -> V:
        s = self.eff.of.get(id(g.node))
        if s is None:
            return V(frozenset([F]), closed(o for v in pos + list(kw.values()) for o in v.s | v.c))
        a = g.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound: dict[str, V] = {}
        for i, v in enumerate(pos):
            n = names[i] if i < len(names) else a.vararg.arg if a.vararg is not None else None
            if n is not None:
                bound[n] = join(bound[n], v) if n in bound else v
        for k, v in kw.items():
            n = k if k in names or k in [x.arg for x in a.kwonlyargs] else a.kwarg.arg if a.kwarg is not None else None
            if k is None:
                continue
            if n is not None:
                bound[n] = v

        def origins(o: tuple) -> frozenset:
            if o == F or o[0] == "G":
                return frozenset([o])
            v = bound.get(o[1])
            if v is None:
                return frozenset()
            return v.s if o[0] == "p" else contents(v, o[2])

        for (o, what), _ in list(s.effects.items()):
            for x in origins(o):
                if x != F and (x, what) not in self.sum.effects:
                    self.sum.effects[(x, what)] = node
                    self.sum.via[(x, what)] = (g, (o, what))
        for (t, o), _ in list(s.stores.items()):
            vs = closed(origins(o))
            for x in origins(t):
                if x != F:
                    for y in vs:
                        self.sum.stores.setdefault((x, y), node)
        vs = frozenset().union(*[origins(o) for o in s.value.s]) if s.value.s else frozenset([F])
        cs = closed(x for o in s.value.c for x in origins(o))
        return V(vs or frozenset([F]), cs)
