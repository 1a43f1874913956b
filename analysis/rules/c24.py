"""
Decides that the text of generated SQL does not depend on unordered iteration, object identity, time or chance.

A flow-sensitive data-flow analysis over the syntax tree of every function that takes part in producing SQL (everything but random test
data, generated Python source and converting result sets). Each expression is given a set of properties: `set` (an unordered collection),
`seq` (an ordered collection, a string or a generator whose order has been taken from an unordered one), `deep` (a container that has
unordered collections in it), `volatile` (identity, hash, time, or random number). Parameters and results carry these between functions
(to a fixed point over the call graph); the state is joined where branches meet.

* `order`: an unordered collection is consumed only where order does not matter (membership, size, union, any/all, building another set),
  or it is first sorted by a key that tells its elements apart: a value in an unspecified order is not joined, formatted, indexed, popped
  (unless known to have a single element), stored in an object, appended to, or passed to a library function whose result depends on order.
* `identity`: no decision rests on whether a type expression (an annotated or parameterised type) is the same object as another: such types are
  made anew, or taken from a cache of limited size, wherever they are written, so what is the same object depends on what ran before.
* `volatile`: identity, hashes, time and random numbers are not returned, stored, formatted or passed on, except to a log.

Texts of exceptions and log messages, and rows of data (which are not part of the text of a statement), are left out.
"""

from __future__ import annotations

import ast
from dataclasses import dataclass, field
from typing import Iterable, Optional

from ..calls import Calls
from ..framework import Ctx
from ..program import ClassInfo, FuncInfo, Module, dotted, walk_own
from ..types import Ty, alts

ASSUMPTIONS = [
    "dictionaries and lists keep insertion order; functions of the standard library and strong_typing other than those listed in the rule do not depend on hash order",
    "a key function for sorting that yields the element, its text, its name and module, or its position in another list tells elements apart",
]

EXCLUDED = ("pysqlsync.data", "pysqlsync.python_types", "pysqlsync.resultset", "pysqlsync.formation.sql_to_py", "pysqlsync.formation.data_class")
SET_TYPES = {"set", "frozenset", "keysview", "AbstractSet", "MutableSet", "Set", "FrozenSet"}
# library functions by what order their result has
EXT = {
    "strong_typing.inspection.get_referenced_types": {"set"},
    "strong_typing.topological.type_topological_sort": {"seq"},
    "asyncio.as_completed": {"seq"},
    "asyncio.wait": {"deep"},
    "os.listdir": {"seq"},
    "os.scandir": {"seq"},
    "glob.glob": {"seq"},
}
EXT_ATTRS = {"strong_typing.inspection.TypeCollector": {"graph": {"deep"}, "references": {"set"}}}
VOLATILE = {
    "id", "hash", "time.time", "time.time_ns", "time.monotonic", "time.perf_counter", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today",
    "datetime.date.today", "uuid.uuid1", "uuid.uuid4", "os.urandom", "os.getpid", "os.times", "threading.get_ident", "time.strftime", "time.localtime", "time.gmtime", "tempfile.mktemp", "object.__repr__", "object.__hash__",
}
VOLATILE_MODULES = {"random", "secrets"}
INSENSITIVE = {"len", "any", "all", "sum", "min", "max", "isinstance", "issubclass", "bool", "type", "hasattr", "callable", "print"}
TO_SET = {"set", "frozenset"}
TO_SEQ = {"list", "tuple", "iter", "reversed", "enumerate", "zip", "map", "filter", "dict", "itertools.chain", "collections.deque", "dict.fromkeys", "OrderedDict", "collections.OrderedDict", "itertools.chain.from_iterable", "itertools.islice", "itertools.product", "itertools.groupby", "functools.reduce"}
SET_METHODS = {"union", "intersection", "difference", "symmetric_difference", "copy", "__or__", "__and__"}
SET_UPDATES = {"add", "update", "discard", "remove", "clear", "intersection_update", "difference_update", "symmetric_difference_update"}
LIST_GROW = {"append", "extend", "insert", "appendleft", "write", "writelines", "setdefault", "put", "put_nowait"}
DATA_TYPES = {"RecordType", "DataSource"}


@dataclass
class Summary:
    params: dict[str, frozenset[str]] = field(default_factory=dict)
    result: frozenset[str] = frozenset()


@dataclass
class Env:
    kinds: dict[str, frozenset[str]] = field(default_factory=dict)
    single: frozenset[str] = frozenset()
    lengths: dict[str, str] = field(default_factory=dict)
    live: bool = True

    def copy(self) -> "Env":
        return Env(dict(self.kinds), self.single, dict(self.lengths), self.live)


NONE: frozenset[str] = frozenset()


def join(a: Env, b: Env) -> Env:
    if not a.live:
        return b
    if not b.live:
        return a
    return Env({k: a.kinds.get(k, NONE) | b.kinds.get(k, NONE) for k in {**a.kinds, **b.kinds}}, a.single & b.single, {k: v for k, v in a.lengths.items() if b.lengths.get(k) == v})


def in_scope(m: Module) -> bool:
    return not any(m.name == e or m.name.startswith(e + ".") for e in EXCLUDED)


class Analysis:
    def __init__(self, ctx: Ctx) -> None:
        self.ctx = ctx
        self.prog = ctx.prog
        self.calls = Calls(ctx.prog)
        self.sums: dict[int, Summary] = {}
        self.attrs: dict[str, frozenset[str]] = {}
        self.changed = False
        self.report = False
        self.found: dict[tuple[str, str], tuple[str, str, str]] = {}
        self.sources: set[tuple[str, int, int]] = set()
        self.sinks = 0
        self.mods: dict[str, dict[str, frozenset[str]]] = {}

    def summary(self, f: FuncInfo) -> Summary:
        return self.sums.setdefault(id(f.node), Summary())

    def of_type(self, t: Ty) -> frozenset[str]:
        out: set[str] = set()
        for a in alts(t):
            if a.kind == "ext" and a.ref in SET_TYPES:
                out.add("set")
            elif a.kind == "coro":
                out |= self.of_type(a.args[0])
            elif a.kind == "ext" and a.ref != "callable" and any(self.of_type(x) for x in a.args):
                out.add("deep")
        return frozenset(out)

    def data_param(self, f: FuncInfo, name: str) -> bool:
        for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs:
            if a.arg == name and a.annotation is not None:
                return any(isinstance(n, (ast.Name, ast.Attribute)) and (dotted(n) or "").split(".")[-1] in DATA_TYPES for n in ast.walk(a.annotation)) or any(isinstance(n, ast.Constant) and n.value in DATA_TYPES for n in ast.walk(a.annotation))
        return False

    def module_env(self, m: Module) -> dict[str, frozenset[str]]:
        if m.name not in self.mods:
            self.mods[m.name] = {}
            run = Run(self, None, m)
            env = Env()
            for k, v in m.variables.items():
                try:
                    kind = run.expr(v, env)
                except RecursionError:
                    kind = NONE
                if k in m.var_annots:
                    kind |= self.of_type(self.ctx.tr.annot(m, m.var_annots[k]))
                env.kinds[k] = kind
            self.mods[m.name] = env.kinds
        return self.mods[m.name]


def sole(e: ast.AST, env: Env) -> bool:
    "A collection known to have no more than one element."
    while isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] in ("list", "tuple", "iter", "set", "frozenset", "sorted", "cast", "copy") and e.args:
        e = e.args[-1]
    return isinstance(e, ast.Name) and e.id in env.single


class Run:
    "One pass over a function."

    def __init__(self, an: Analysis, f: Optional[FuncInfo], m: Module, outer: Optional[Env] = None) -> None:
        self.an = an
        self.f = f
        self.m = m
        self.outer = outer
        self.loops: list[tuple[ast.AST, set[str]]] = []  # loops over something in no particular order
        self.quiet = 0
        self.result: frozenset[str] = NONE
        self.nested: dict[str, ast.AST] = {}

    # -- reporting

    def bad(self, rule: str, node: ast.AST, what: str) -> None:
        if not self.an.report or self.quiet or self.f is None:
            return
        src = " ".join(ast.unparse(node).split())
        src = src if len(src) < 70 else src[:67] + "..."
        self.an.found.setdefault((self.f.loc(node), rule), (rule, f"{self.f.short}: {src}", what))

    def use(self) -> None:
        if self.an.report:
            self.an.sinks += 1

    # -- statements

    def body(self, stmts: Iterable[ast.stmt], env: Env) -> Env:
        for s in stmts:
            if not env.live:
                break
            env = self.stmt(s, env)
        return env

    def stmt(self, s: ast.stmt, env: Env) -> Env:
        if isinstance(s, ast.Expr):
            v = s.value.value if isinstance(s.value, ast.Await) else s.value
            if isinstance(v, ast.Call):
                self.effect(v, env)
            else:
                self.expr(s.value, env)
        elif isinstance(s, ast.Assign):
            k = self.expr(s.value, env)
            for t in s.targets:
                self.assign(t, k, env, s.value)
        elif isinstance(s, ast.AnnAssign):
            k = self.expr(s.value, env) if s.value is not None else NONE
            k |= self.an.of_type(self.an.ctx.tr.annot(self.m, s.annotation))
            self.assign(s.target, k, env, s.value)
        elif isinstance(s, ast.AugAssign):
            k = self.expr(s.value, env)
            if isinstance(s.target, ast.Name):
                old = self.get(s.target.id, env)
                numeric = isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)) or isinstance(s.value, ast.Call) and dotted(s.value.func) == "len"
                if "set" not in old and not numeric and self.loops and not self.local(s.target.id) and isinstance(s.op, (ast.Add, ast.Mod)):
                    k |= {"seq"}
                if isinstance(s.op, ast.BitOr) and "set" in old and not self.loops:
                    k -= {"seq"}
                elif k & {"set"} and "set" not in old:
                    k = (k - {"set"}) | {"seq"}
                env.kinds[s.target.id] = old | k
            else:
                self.assign(s.target, k, env, s.value)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                k = self.expr(s.value, env)
                if self.loops and not isinstance(s.value, ast.Constant) and self.depends(s.value):
                    self.bad("order", s, "the first element of an unordered collection that meets a condition is returned")
                if "volatile" in k and not (self.f and self.f.name in ("__hash__",)):
                    self.bad("volatile", s, "identity, time or chance decides the result")
                self.result |= k - {"volatile", "view"}
            env.live = False
        elif isinstance(s, ast.Raise):
            env.live = False
        elif isinstance(s, (ast.Continue, ast.Break)):
            env.live = False
        elif isinstance(s, ast.Assert):
            env = self.branch(s.test, env, True)
        elif isinstance(s, ast.If):
            self.expr(s.test, env)
            a = self.body(s.body, self.branch(s.test, env.copy(), True))
            b = self.body(s.orelse, self.branch(s.test, env.copy(), False))
            env = join(a, b)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            k = self.expr(s.iter, env)
            if k & {"set", "seq"}:
                self.use()
                self.loops.append((s, stores(s)))
            inner = env.copy()
            for _ in range(2):
                self.bind(s.target, k, inner, s.iter)
                out = self.body(s.body, inner.copy())
                out.live = True
                inner = join(inner, out)
            if k & {"set", "seq"}:
                self.loops.pop()
                if not self.loops:
                    self.leftovers(s)
            env = join(env, inner)
            env = self.body(s.orelse, env)
        elif isinstance(s, ast.While):
            self.expr(s.test, env)
            inner = env.copy()
            for _ in range(2):
                out = self.body(s.body, self.branch(s.test, inner.copy(), True))
                out.live = True
                inner = join(inner, out)
            env = self.body(s.orelse, join(env, inner))
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                k = self.expr(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, k, env, i.context_expr)
            env = self.body(s.body, env)
        elif isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            start = env.copy()
            a = self.body(s.body, env)
            a = self.body(s.orelse, a) if a.live else a
            outs = a
            mid = start.copy()
            mid.kinds = {k: start.kinds.get(k, NONE) | a.kinds.get(k, NONE) for k in {**start.kinds, **a.kinds}}
            mid.live = True
            for h in s.handlers:
                outs = join(outs, self.body(h.body, mid.copy()))
            if s.finalbody:
                live = outs.live
                outs = Env(outs.kinds, outs.single, outs.lengths, True)
                outs = self.body(s.finalbody, outs)
                outs.live = outs.live and live
            env = outs
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.nested[s.name] = s
            g = self.an.calls.nested.get((id(self.f.node), s.name)) if self.f is not None else None
            if g is not None:
                function(self.an, g, env)
        elif isinstance(s, ast.Match):
            self.expr(s.subject, env)
            outs = env.copy()
            for c in s.cases:
                outs = join(outs, self.body(c.body, env.copy()))
            env = outs
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.kinds.pop(t.id, None)
        return env

    def local(self, name: str) -> bool:
        return any(name in names for _, names in self.loops[-1:]) and self.first_in_loop(name)

    def first_in_loop(self, name: str) -> bool:
        "The variable is first given its value inside the loop."
        loop = self.loops[-1][0]
        root = self.f.node if self.f is not None else self.m.tree
        inside = {id(n) for n in ast.walk(loop)}
        for n in ast.walk(root):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) and id(n) not in inside:
                return False
        if self.f is not None and name in [a.arg for a in self.f.args.posonlyargs + self.f.args.args + self.f.args.kwonlyargs]:
            return False
        return True

    def depends(self, e: ast.AST) -> bool:
        names = {n for _, ns in self.loops for n in ns}
        return any(isinstance(n, ast.Name) and n.id in names for n in ast.walk(e))

    def leftovers(self, loop: ast.AST) -> None:
        "A variable given its value by the last (or some) element is read after the loop."
        root = self.f.node if self.f is not None else self.m.tree
        inside = {id(n) for n in ast.walk(loop)}
        end = getattr(loop, "end_lineno", 0)
        lv = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}  # type: ignore[attr-defined]
        assigned: dict[str, ast.AST] = {v: loop.target for v in lv}  # type: ignore[attr-defined]
        dep = set(lv)
        for n in ast.walk(loop):
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id in dep for x in ast.walk(n.value)):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        assigned[t.id] = n
                        dep.add(t.id)
        for n in ast.walk(root):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in assigned and id(n) not in inside and n.lineno > end:
                again = [m for m in ast.walk(root) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store) and m.id == n.id and id(m) not in inside and end < m.lineno <= n.lineno]
                comp = any(isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp, ast.Lambda)) and any(x is n for x in ast.walk(c)) for c in ast.walk(root))
                if not again and not comp:
                    self.bad("order", assigned[n.id], "the value left by the last element of an unordered collection is used")

    def bind(self, target: ast.AST, k: frozenset[str], env: Env, it: Optional[ast.AST]) -> None:
        inner: frozenset[str] = NONE
        if "deep" in k:
            inner = frozenset({"set"})
        if isinstance(target, ast.Name):
            env.kinds[target.id] = inner
            env.single -= {target.id}
        elif isinstance(target, (ast.Tuple, ast.List)):
            for i, e in enumerate(target.elts):
                # the key of an item is not a set
                items = isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" or isinstance(it, ast.Call) and dotted(it.func) == "enumerate"
                self.bind(e, NONE if items and i == 0 else k, env, None)
        elif isinstance(target, ast.Starred):
            self.bind(target.value, k, env, None)

    def assign(self, t: ast.AST, k: frozenset[str], env: Env, value: Optional[ast.AST]) -> None:
        if not isinstance(t, ast.Name):
            k -= {"view"}
        if isinstance(t, ast.Name):
            env.kinds[t.id] = k
            env.single = env.single | {t.id} if value is not None and sole(value, env) else env.single - {t.id}
            env.lengths.pop(t.id, None)
            if isinstance(value, ast.Call) and dotted(value.func) == "len" and value.args and isinstance(value.args[0], ast.Name):
                env.lengths[t.id] = value.args[0].id
            if isinstance(value, ast.Call):
                r = self.an.prog.resolve_expr(self.m, value.func)
                if isinstance(r, str) and r in EXT_ATTRS:
                    env.lengths["new " + t.id] = r
        elif isinstance(t, (ast.Tuple, ast.List)):
            if len(t.elts) == 1 and not isinstance(t.elts[0], ast.Starred):
                self.bind(t.elts[0], k, env, None)  # exactly one element
                return
            if k & {"set", "seq"} and not isinstance(value, ast.Tuple):
                if value is not None and not self.returns_pair(value):
                    self.bad("order", t, "an unordered collection is unpacked")
            for e in t.elts:
                self.bind(e, frozenset({"deep"}) if k & {"deep"} else NONE, env, None)
        elif isinstance(t, ast.Attribute):
            self.use()
            if "seq" in k:
                self.bad("order", t, "a value in an unspecified order is stored")
            if "volatile" in k:
                self.bad("volatile", t, "identity, time or chance is stored")
            old = self.an.attrs.get(t.attr, NONE)
            new = k & {"set", "deep"}
            if new - old:
                self.an.attrs[t.attr] = old | new
                self.an.changed = True
        elif isinstance(t, ast.Subscript):
            self.expr(t.slice, env)
            if "volatile" in k:
                self.bad("volatile", t, "identity, time or chance is stored")
            if isinstance(t.value, ast.Name):
                old = self.get(t.value.id, env)
                new = frozenset({"deep"}) if k & {"set", "deep"} else NONE
                if "seq" in k:
                    new |= {"seq"}
                if self.loops and not self.local(t.value.id):
                    new |= {"seq"}
                env.kinds[t.value.id] = old | new
            elif self.loops:
                self.bad("order", t, "items are stored in the order of an unordered collection")
        elif isinstance(t, ast.Starred):
            self.assign(t.value, k, env, None)

    def returns_pair(self, value: ast.AST) -> bool:
        "A tuple of results rather than a collection."
        v = value.value if isinstance(value, ast.Await) else value
        if isinstance(v, ast.Call) and self.f is not None:
            for g in self.an.calls.resolve(self.f, v):
                if g.node.returns is not None and "tuple" in ast.unparse(g.node.returns).lower():
                    return True
        return False

    def branch(self, test: ast.AST, env: Env, sense: bool) -> Env:
        for n in singles(test, sense, env.lengths):
            env.single |= {n}
        return env

    # -- expressions

    def get(self, name: str, env: Env) -> frozenset[str]:
        if name in env.kinds:
            return env.kinds[name]
        if self.outer is not None and name in self.outer.kinds:
            return self.outer.kinds[name]
        if self.f is not None and name in self.m.variables:
            return self.an.module_env(self.m).get(name, NONE)
        r = self.an.prog.resolve_name(self.m, name) if self.f is not None and name in self.m.imports else None
        if isinstance(r, tuple) and r and r[0] == "var":
            return self.an.module_env(r[1]).get(r[2], NONE)
        return NONE

    def expr(self, e: Optional[ast.AST], env: Env) -> frozenset[str]:
        if e is None:
            return NONE
        if isinstance(e, ast.Constant):
            return NONE
        if isinstance(e, ast.Name):
            return self.get(e.id, env)
        if isinstance(e, (ast.Set, ast.SetComp)):
            self.an.sources.add((self.m.relpath if hasattr(self.m, "relpath") else self.m.name, e.lineno, e.col_offset))
            if isinstance(e, ast.SetComp):
                inner = self.comp(e.generators, env)[1]
                self.expr(e.elt, inner)
            else:
                for x in e.elts:
                    self.expr(x, env)
            return frozenset({"set"})
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            k, inner = self.comp(e.generators, env)
            ek = self.expr(e.elt, inner)
            return k | (frozenset({"deep"}) if ek & {"set", "deep"} else NONE) | (ek & {"seq", "volatile"})
        if isinstance(e, ast.DictComp):
            k, inner = self.comp(e.generators, env)
            self.expr(e.key, inner)
            ek = self.expr(e.value, inner)
            return k | (frozenset({"deep"}) if ek & {"set", "deep"} else NONE) | (ek & {"seq", "volatile"})
        if isinstance(e, ast.Dict):
            out: frozenset[str] = NONE
            for kk, v in zip(e.keys, e.values):
                vk = self.expr(v, env)
                if kk is None:
                    out |= (vk - {"set"})
                else:
                    self.expr(kk, env)
                    out |= (frozenset({"deep"}) if vk & {"set", "deep"} else NONE) | (vk & {"seq", "volatile"})
            return out
        if isinstance(e, (ast.List, ast.Tuple)):
            out = NONE
            for v in e.elts:
                if isinstance(v, ast.Starred):
                    vk = self.expr(v.value, env)
                    out |= (vk - {"set"}) | (frozenset({"seq"}) if vk & {"set"} else NONE)
                else:
                    vk = self.expr(v, env)
                    out |= (frozenset({"deep"}) if vk & {"set", "deep"} else NONE) | (vk & {"seq", "volatile"})
            return out
        if isinstance(e, ast.Starred):
            return self.expr(e.value, env)
        if isinstance(e, ast.Await):
            return self.expr(e.value, env)
        if isinstance(e, ast.NamedExpr):
            k = self.expr(e.value, env)
            self.assign(e.target, k, env, e.value)
            return k
        if isinstance(e, ast.IfExp):
            self.expr(e.test, env)
            return self.expr(e.body, self.branch(e.test, env.copy(), True)) | self.expr(e.orelse, self.branch(e.test, env.copy(), False))
        if isinstance(e, ast.BoolOp):
            out = NONE
            inner = env.copy()
            for v in e.values:
                out |= self.expr(v, inner)
                self.branch(v, inner, isinstance(e.op, ast.And))
            return out
        if isinstance(e, ast.BinOp):
            a, b = self.expr(e.left, env), self.expr(e.right, env)
            if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant):
                self.text(e.right, b, e)
                return b & {"volatile"}
            if isinstance(e.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)) and ("view" in a or "view" in b):
                return frozenset({"set"})  # operations on the keys of dictionaries yield sets
            if isinstance(e.op, ast.Add):
                return (a | b) - {"set"} | (frozenset({"seq"}) if (a | b) & {"set"} else NONE)
            return a | b
        if isinstance(e, ast.UnaryOp):
            return self.expr(e.operand, env) & {"volatile"}
        if isinstance(e, ast.Compare):
            self.expr(e.left, env)
            for c in e.comparators:
                self.expr(c, env)
            return NONE
        if isinstance(e, ast.JoinedStr):
            out = NONE
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    k = self.expr(v.value, env)
                    self.text(v.value, k, e)
                    out |= k & {"volatile"}
            return out
        if isinstance(e, ast.Lambda):
            return NONE
        if isinstance(e, ast.Attribute):
            k = self.expr(e.value, env)
            if isinstance(e.value, ast.Name):
                r = env.lengths.get("new " + e.value.id)
                if r is not None and e.attr in EXT_ATTRS[r]:
                    return frozenset(EXT_ATTRS[r][e.attr])
            if isinstance(e.value, ast.Call):
                r2 = self.an.prog.resolve_expr(self.m, e.value.func)
                if isinstance(r2, str) and r2 in EXT_ATTRS and e.attr in EXT_ATTRS[r2]:
                    return frozenset(EXT_ATTRS[r2][e.attr])
            out = self.an.attrs.get(e.attr, NONE) if not self.external(e) else NONE
            for c in self.an.prog.classes():
                a = c.annots.get(e.attr)
                if a is not None and in_scope(c.module):
                    out |= self.an.of_type(self.an.ctx.tr.annot(c.module, a))
                p = c.methods.get(e.attr)
                if p is not None and p.is_property:
                    out |= self.returned(p)
            return out | (k & {"volatile"})
        if isinstance(e, ast.Subscript):
            k = self.expr(e.value, env)
            self.expr(e.slice, env)
            if isinstance(e.slice, ast.Slice):
                if "seq" in k and isinstance(e.value, ast.Name) is not None:
                    return k
                return k
            if "seq" in k and self.position(e.slice):
                if not sole(e.value, env):
                    self.use()
                    self.bad("order", e, "an element is chosen by its position in an unspecified order")
                return NONE
            return (frozenset({"set"}) if "deep" in k else NONE) | (k & {"volatile"})
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            k = self.expr(e.value, env)
            if isinstance(e, ast.YieldFrom) and k & {"set", "seq"} or self.loops:
                self.result |= {"seq"}
            if isinstance(e, ast.Yield) and k & {"set", "deep"}:
                self.result |= {"deep"}
            if "volatile" in k:
                self.bad("volatile", e, "identity, time or chance is yielded")
            return NONE
        if isinstance(e, ast.Call):
            return self.call(e, env)
        out = NONE
        for c2 in ast.iter_child_nodes(e):
            if isinstance(c2, ast.expr):
                out |= self.expr(c2, env)
        return out & {"volatile"}

    @staticmethod
    def position(s: ast.AST) -> bool:
        if isinstance(s, ast.UnaryOp):
            s = s.operand
        return isinstance(s, ast.Constant) and isinstance(s.value, int)

    def text(self, e: ast.AST, k: frozenset[str], whole: ast.AST) -> None:
        if k & {"set", "seq", "deep"}:
            self.use()
            self.bad("order", whole, f"`{ast.unparse(e)}` is written in an unspecified order")

    def comp(self, gens: list[ast.comprehension], env: Env) -> tuple[frozenset[str], Env]:
        out: frozenset[str] = NONE
        inner = env.copy()
        for g in gens:
            k = self.expr(g.iter, inner)
            if k & {"set", "seq"}:
                self.use()
                out |= {"seq"}
            out |= k & {"volatile"}
            self.bind(g.target, k, inner, g.iter)
            for i in g.ifs:
                self.expr(i, inner)
        return out, inner

    def external(self, e: ast.AST) -> bool:
        d = dotted(e)
        if d is None:
            return False
        r = self.an.prog.resolve_name(self.m, d.split(".")[0]) if d.split(".")[0] in self.m.imports else None
        return isinstance(r, str)

    def returned(self, g: FuncInfo) -> frozenset[str]:
        k = self.an.summary(g).result
        if g.node.returns is not None:
            k |= self.an.of_type(self.an.ctx.tr.annot(g.module, g.node.returns))
        return k

    def logging(self, c: ast.Call) -> bool:
        d = dotted(c.func) or ""
        parts = d.split(".")
        return len(parts) > 1 and (parts[0] in ("LOGGER", "logging", "logger", "warnings", "log") or "logger" in parts[-2].lower() or "log" == parts[-2].lower())

    def effect(self, c: ast.Call, env: Env) -> None:
        "A call made for its effect."
        if self.logging(c):
            return
        k = self.call(c, env)
        if self.loops:
            if isinstance(c.func, ast.Attribute):
                base = c.func.value
                if c.func.attr in SET_UPDATES and (self.expr(base, env) & {"set", "deep"} or c.func.attr in ("add", "discard")):
                    return
                if c.func.attr in LIST_GROW or c.func.attr in SET_UPDATES:
                    if isinstance(base, ast.Name):
                        return  # recorded by call()
                    if isinstance(base, ast.Subscript) or isinstance(base, ast.Call) and isinstance(base.func, ast.Attribute) and base.func.attr == "setdefault":
                        return  # recorded by call()
            if dotted(c.func) == "print":
                self.bad("order", c, "printed in the order of an unordered collection")
                return
            self.bad("order", c, "effects take place in the order of an unordered collection")

    def call(self, c: ast.Call, env: Env) -> frozenset[str]:
        if self.logging(c):
            return NONE
        fn = c.func
        d = dotted(fn) or ""
        r = self.an.prog.resolve_expr(self.m, fn) if d else None
        name = r if isinstance(r, str) else d
        if d.split(".")[0] in env.kinds or d.split(".")[0] in ("self",):
            name = d
        args = [self.expr(a, env) for a in c.args]
        kws = {k.arg: self.expr(k.value, env) for k in c.keywords}
        everything = NONE.union(*args, *kws.values()) if args or kws else NONE
        star = frozenset({"seq"}) if any(isinstance(a, ast.Starred) and k & {"set", "seq"} for a, k in zip(c.args, args)) else NONE
        if name in VOLATILE or name.split(".")[0] in VOLATILE_MODULES and isinstance(r, str) and "." in name:
            self.use()
            return frozenset({"volatile"})
        vol = everything & {"volatile"}
        if name in EXT:
            self.use()
            return frozenset(EXT[name])
        if name in ("typing.cast", "cast") and len(args) == 2:
            return args[1]
        if name in ("copy.copy", "copy.deepcopy", "copy", "deepcopy"):
            return args[0] if args else NONE
        if name in TO_SET:
            return frozenset({"set"}) | vol
        if name == "sorted":
            key = next((k.value for k in c.keywords if k.arg == "key"), None)
            return self.sorting(c, c.args[0] if c.args else None, args[0] if args else NONE, key, env)
        if name == "next":
            a = c.args[0]
            if args and args[0] & {"set", "seq"}:
                if not sole(a, env):
                    self.use()
                    self.bad("order", c, "an arbitrary element of an unordered collection is taken")
            return NONE
        if name in ("min", "max") and everything & {"set", "seq"} and "key" in kws:
            key = next(k.value for k in c.keywords if k.arg == "key")
            if not self.total(key, env):
                self.use()
                self.bad("order", c, "which of several equal elements is taken depends on an unspecified order")
            return NONE
        if name in INSENSITIVE:
            return vol
        if name in TO_SEQ:
            return (everything & {"deep", "volatile"}) | (frozenset({"seq"}) if everything & {"set", "seq"} else NONE) | star
        if name in ("str", "repr", "format", "ascii"):
            for a, k in zip(c.args, args):
                self.text(a, k, c)
            return vol
        if isinstance(fn, ast.Attribute):
            out = self.method(c, fn, args, kws, env, r)
            if out is not None:
                return out
        targets = self.an.calls.resolve(self.f, c) if self.f is not None else []
        if isinstance(r, ClassInfo):
            out = vol
            for g in targets:
                self.pass_args(c, g, args, kws)
            if not targets:
                if everything & {"seq"} or star:
                    self.use()
                    self.bad("order", c, "a value in an unspecified order is stored")
            if vol:
                self.bad("volatile", c, "identity, time or chance is stored")
            return NONE
        if targets:
            out = NONE
            for g in targets:
                self.pass_args(c, g, args, kws)
                out |= self.returned(g)
            if vol and not all(g.name == "__hash__" for g in targets):
                self.bad("volatile", c, "identity, time or chance is passed on")
            if star:
                self.use()
                self.bad("order", c, "arguments are passed in an unspecified order")
            return out
        if isinstance(r, str) and "." not in r and not isinstance(fn, ast.Attribute) or isinstance(fn, ast.Name) and fn.id not in self.m.imports:
            # a callable value, or a builtin
            if everything & {"seq", "set", "deep"} and not self.exempt_builtin(name):
                self.use()
                self.bad("order", c, "a value in an unspecified order is passed on")
            return vol
        if everything & {"seq", "set", "deep"} and not name.startswith(("typing.", "logging.", "warnings.", "isinstance", "strong_typing.inspection.is_", "dataclasses.is_")):
            self.use()
            self.bad("order", c, "the result of a library function depends on an unspecified order")
        return vol

    @staticmethod
    def exempt_builtin(name: str) -> bool:
        return name in ("isinstance", "len", "super", "vars", "getattr", "setattr", "AssertionError") or name.endswith(("Error", "Exception"))

    def pass_args(self, c: ast.Call, g: FuncInfo, args: list[frozenset[str]], kws: dict[Optional[str], frozenset[str]]) -> None:
        params = [a.arg for a in g.args.posonlyargs + g.args.args]
        if g.cls is not None and not g.is_static and params:
            bound = isinstance(c.func, ast.Attribute) and not isinstance(self.an.prog.resolve_expr(self.m, c.func.value), ClassInfo) or g.name == "__init__"
            if bound:
                params = params[1:]
        pairs: list[tuple[str, frozenset[str]]] = []
        for i, k in enumerate(args):
            if i < len(params):
                pairs.append((params[i], k))
            elif g.args.vararg is not None:
                pairs.append((g.args.vararg.arg, frozenset({"deep"}) if k & {"set", "deep"} else k))
        for n, k in kws.items():
            if n is not None:
                pairs.append((n, k))
        s = self.an.summary(g)
        for n, k in pairs:
            k = k - {"volatile", "view"}
            if not k or self.an.data_param(g, n):
                continue
            old = s.params.get(n, NONE)
            if k - old:
                s.params[n] = old | k
                self.an.changed = True

    def method(self, c: ast.Call, fn: ast.Attribute, args: list[frozenset[str]], kws: dict[Optional[str], frozenset[str]], env: Env, r: object) -> Optional[frozenset[str]]:
        if isinstance(r, (ClassInfo,)) or self.external(fn) and not (isinstance(fn.value, ast.Name) and fn.value.id in env.kinds):
            return None
        k = self.expr(fn.value, env)
        everything = NONE.union(*args, *kws.values()) if args or kws else NONE
        m = fn.attr
        if m in ("join",) and (isinstance(fn.value, (ast.Constant, ast.JoinedStr, ast.Name)) or True) and len(c.args) == 1 and not self.project(fn):
            if everything & {"set", "seq", "deep"}:
                self.use()
                self.bad("order", c, "texts are joined in an unspecified order")
            return everything & {"volatile"}
        if m == "format" and isinstance(fn.value, (ast.Constant, ast.JoinedStr)):
            for a, kk in zip(c.args, args):
                self.text(a, kk, c)
            return everything & {"volatile"}
        if "set" in k:
            if m == "pop":
                self.use()
                if not sole(fn.value, env):
                    self.bad("order", c, "an arbitrary element of an unordered collection is taken")
                return NONE
            if m in SET_METHODS:
                return frozenset({"set"})
            if m in SET_UPDATES or m.startswith("is") or m in ("__contains__", "__len__"):
                return NONE
        if m == "sort" and not self.project(fn):
            key = next((x.value for x in c.keywords if x.arg == "key"), None)
            new = self.sorting(c, fn.value, k, key, env)
            if isinstance(fn.value, ast.Name):
                env.kinds[fn.value.id] = new
            return NONE
        if m in ("union", "intersection", "difference") and not self.project(fn) and not k and isinstance(fn.value, ast.Name) and fn.value.id in ("set", "frozenset"):
            return frozenset({"set"})
        if m in ("keys", "items") and not args:
            return (k - {"deep"} if m == "keys" else k) | {"view"}
        if m in ("values", "items", "keys", "copy", "__iter__", "get", "setdefault", "pop", "popitem", "index", "count", "split", "reverse"):
            if "seq" in k or "deep" in k:
                if m in ("values", "items", "copy"):
                    return k
                if m == "keys":
                    return k - {"deep"}
                if m in ("get", "setdefault"):
                    return frozenset({"set"}) if "deep" in k else NONE
                if m in ("pop", "popitem") and "seq" in k and (m == "popitem" or not c.args or self.position(c.args[0])):
                    self.use()
                    if not sole(fn.value, env):
                        self.bad("order", c, "an element is chosen by its position in an unspecified order")
                    return NONE
                if m == "pop":
                    return frozenset({"set"}) if "deep" in k else NONE
                if m == "index" and "seq" in k:
                    self.use()
                    self.bad("order", c, "a position in an unspecified order is used")
                return NONE
        if m in LIST_GROW or m in SET_UPDATES:
            base = fn.value
            while isinstance(base, (ast.Subscript, ast.Call, ast.Attribute)):
                base = base.value if not isinstance(base, ast.Call) else base.func
            grown: frozenset[str] = NONE
            if m in ("extend", "update", "writelines"):
                grown = (everything - {"set"}) | (frozenset({"seq"}) if everything & {"set", "seq"} else NONE)
            elif m in ("append", "insert", "appendleft", "add", "setdefault"):
                grown = (frozenset({"deep"}) if everything & {"set", "deep"} else NONE) | (everything & {"seq", "volatile"})
            else:
                grown = everything
            if m == "add" or m in SET_UPDATES and ("set" in k or "deep" in k):
                grown &= {"deep"}
            elif self.loops and isinstance(base, ast.Name) and not self.local(base.id) and m not in ("discard", "remove", "clear"):
                grown |= {"seq"}
            if self.project(fn):
                # a project class's own method of this name: an object keeps what it is given
                if everything & {"seq"} or self.loops and "seq" in grown:
                    self.use()
                    self.bad("order", c, "a value in an unspecified order is stored")
                return None
            if isinstance(base, ast.Name) and base.id != "self":
                env.kinds[base.id] = self.get(base.id, env) | grown
            elif "seq" in grown:
                self.use()
                self.bad("order", c, "a value in an unspecified order is stored")
            if "volatile" in everything and m not in ("add", "setdefault"):
                self.bad("volatile", c, "identity, time or chance is stored")
            return frozenset({"set"}) if m == "setdefault" and ("deep" in k or any("set" in a for a in args[1:])) else NONE
        if "volatile" in k and not self.an.calls.by_name.get(m):
            return frozenset({"volatile"})
        if not self.an.calls.by_name.get(m):
            # a method of a library object
            if everything & {"set", "seq", "deep"} and m not in ("issuperset", "issubset", "isdisjoint", "__contains__", "intersection", "difference", "union"):
                self.use()
                self.bad("order", c, "the result of a library function depends on an unspecified order")
            if everything & {"volatile"} and m not in ("get", "discard", "remove"):
                self.bad("volatile", c, "identity, time or chance is passed on")
            if m in ("intersection", "difference", "union"):
                return frozenset({"set"})
            return k & {"volatile"}
        return None

    def project(self, fn: ast.Attribute) -> bool:
        "A method of this name is called on an object of a class of the project, as far as can be told."
        names = self.an.calls.by_name.get(fn.attr)
        if not names:
            return False
        if isinstance(fn.value, (ast.Constant, ast.JoinedStr, ast.List, ast.ListComp)):
            return False
        if isinstance(fn.value, ast.Name) and self.f is not None:
            names_ = {fn.value.id}
            while True:
                more = {n.value.id for n in walk_own(self.f.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and any(isinstance(t, ast.Name) and t.id in names_ for t in n.targets)} - names_
                if not more:
                    break
                names_ |= more
            # a local variable that holds a plain list, dictionary, set or string
            for n in walk_own(self.f.node):
                v: Optional[ast.AST] = None
                ann: Optional[ast.AST] = None
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names_ for t in n.targets):
                    v = n.value
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id in names_:
                    v, ann = n.value, n.annotation
                if isinstance(v, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.SetComp, ast.Constant, ast.JoinedStr)) or isinstance(v, ast.Call) and dotted(v.func) in ("list", "dict", "set", "sorted", "str"):
                    return False
                if ann is not None and (dotted(ann.value) if isinstance(ann, ast.Subscript) else dotted(ann)) in ("list", "dict", "set", "str"):
                    return False
        return True

    def sorting(self, c: ast.Call, what: Optional[ast.AST], k: frozenset[str], key: Optional[ast.AST], env: Env) -> frozenset[str]:
        self.use()
        rest = k & {"deep", "volatile"}
        if key is None or isinstance(key, ast.Constant):
            return rest
        v = volatile_key(self.an.prog, self.m, key, self)
        if v:
            self.bad("volatile", c, f"sorted by {v}")
            return rest
        if k & {"set", "seq"} and not self.total(key, env):
            return rest | {"seq"}
        return rest

    def total(self, key: ast.AST, env: Env) -> bool:
        "The key tells any two different elements apart."
        if isinstance(key, ast.Lambda) and len(key.args.args) == 1:
            return injective(key.body, key.args.args[0].arg, self, env)
        d = dotted(key) or ""
        if d in ("str", "repr", "ascii"):
            return True
        if d.split(".")[-1] in ("index", "__getitem__", "get", "__str__", "__repr__"):
            return True
        if isinstance(key, ast.Call) and (dotted(key.func) or "").split(".")[-1] == "attrgetter":
            attrs = {a.value for a in key.args if isinstance(a, ast.Constant)}
            return enough(attrs)
        g = self.resolve_key(key)
        if g is not None:
            ps = [a.arg for a in g.args.posonlyargs + g.args.args]
            if g.cls is not None and not g.is_static and len(ps) == 2:
                ps = ps[1:]
            rets = [n.value for n in walk_own(g.node) if isinstance(n, ast.Return) and n.value is not None]
            return len(ps) == 1 and bool(rets) and all(injective(x, ps[0], self, env) for x in rets)
        return False

    def resolve_key(self, key: ast.AST) -> Optional[FuncInfo]:
        if self.f is None:
            return None
        t = self.an.calls.resolve_callee(self.f, key)
        return t[0] if len(t) == 1 else None


NAMES = {"__name__", "__qualname__"}


def enough(attrs: set[str]) -> bool:
    if attrs & NAMES:
        return "__module__" in attrs
    if attrs & {"quoted_id", "id", "name", "value", "key", "member"}:
        return True
    return {"scope_id", "local_id"} <= attrs


def injective(e: ast.AST, x: str, run: Run, env: Env) -> bool:
    if isinstance(e, ast.Name):
        return e.id == x
    if isinstance(e, ast.Call):
        d = dotted(e.func) or ""
        if d in ("str", "repr") and len(e.args) == 1:
            return injective(e.args[0], x, run, env)
        if d.split(".")[-1] in ("index", "get", "__getitem__") and isinstance(e.func, ast.Attribute) and e.args:
            return injective(e.args[0], x, run, env)
        g = run.resolve_key(e.func)
        if g is not None and len(e.args) == 1 and isinstance(e.args[0], ast.Name) and e.args[0].id == x:
            return run.total(e.func, env)
        return False
    if isinstance(e, ast.Subscript) and not Run.position(e.slice) and not isinstance(e.slice, ast.Slice):
        return injective(e.slice, x, run, env)
    if isinstance(e, (ast.Tuple, ast.List, ast.JoinedStr, ast.BinOp)):
        parts = e.elts if isinstance(e, (ast.Tuple, ast.List)) else [v.value for v in e.values if isinstance(v, ast.FormattedValue)] if isinstance(e, ast.JoinedStr) else [e.left, e.right]
        if any(injective(p, x, run, env) for p in parts):
            return True
        flat: list[ast.AST] = list(parts)
        while any(isinstance(p, (ast.BinOp, ast.Tuple)) for p in flat):
            flat = [q for p in flat for q in ([p.left, p.right] if isinstance(p, ast.BinOp) else p.elts if isinstance(p, ast.Tuple) else [p])]
        return enough({p.attr for p in flat if isinstance(p, ast.Attribute) and isinstance(p.value, ast.Name) and p.value.id == x})
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == x:
        return enough({e.attr})
    return False


def volatile_key(prog: object, m: Module, key: ast.AST, run: Run) -> Optional[str]:
    d = dotted(key)
    if d in ("id", "hash"):
        return "identity" if d == "id" else "hash"
    nodes = [key.body] if isinstance(key, ast.Lambda) else []
    g = run.resolve_key(key) if not isinstance(key, ast.Lambda) else None
    if g is not None:
        nodes = [n for n in walk_own(g.node)]
    for root in nodes:
        for n in ast.walk(root):
            if isinstance(n, ast.Call) and dotted(n.func) in ("id", "hash"):
                return "identity" if dotted(n.func) == "id" else "hash"
            if isinstance(n, ast.Call) and (dotted(n.func) or "").startswith("random."):
                return "chance"
    return None


def stores(loop: ast.AST) -> set[str]:
    return {n.id for n in ast.walk(loop) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def singles(test: ast.AST, sense: bool, lengths: dict[str, str]) -> set[str]:
    "Variables with at most one element if the test has this outcome."
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return singles(test.operand, not sense, lengths)
    if isinstance(test, ast.BoolOp):
        if isinstance(test.op, ast.And) == sense:
            return {n for v in test.values for n in singles(v, sense, lengths)}
        return set()
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        a, op, b = test.left, test.ops[0], test.comparators[0]

        def size(x: ast.AST) -> Optional[str]:
            if isinstance(x, ast.Call) and dotted(x.func) == "len" and x.args and isinstance(x.args[0], ast.Name):
                return x.args[0].id
            if isinstance(x, ast.Name):
                return lengths.get(x.id)
            return None

        flip = {ast.Gt: ast.Lt, ast.Lt: ast.Gt, ast.GtE: ast.LtE, ast.LtE: ast.GtE}
        kind: type = type(op)
        if isinstance(a, ast.Constant):
            a, b, kind = b, a, flip.get(kind, kind)
        n = size(a)
        if n is None or not isinstance(b, ast.Constant) or not isinstance(b.value, int):
            return set()
        v = b.value
        negate = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Lt: ast.GtE, ast.GtE: ast.Lt}
        if not sense:
            kind = negate.get(kind, kind)
        if kind is ast.Eq and v <= 1 or kind is ast.LtE and v <= 1 or kind is ast.Lt and v <= 2:
            return {n}
    return set()


def function(an: Analysis, f: FuncInfo, outer: Optional[Env] = None) -> None:
    s = an.summary(f)
    env = Env()
    a = f.args
    for p in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        k = s.params.get(p.arg, NONE)
        if p.annotation is not None:
            k |= an.of_type(an.ctx.tr.annot(f.module, p.annotation))
        env.kinds[p.arg] = k
    run = Run(an, f, f.module, outer)
    if f.name in ("__hash__", "__eq__", "__repr__") and f.cls is not None and f.name != "__repr__":
        run.quiet += 1
    run.body(f.node.body, env)
    if run.result - s.result:
        s.result |= run.result
        an.changed = True


# type expressions that the libraries define
ALIASES = {f"strong_typing.auxiliary.{n}" for n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64")} | {"strong_typing.core.JsonType", "strong_typing.core.StrictJsonType"}


def parametrised(prog, m: Module, e: ast.AST, local: set[str]) -> bool:
    "An expression for a type that is not a class: `Annotated[int, ...]`, or the name of one."
    if isinstance(e, ast.Subscript):
        d = dotted(e.value)
        r = prog.resolve_expr(m, e.value) if d is not None else None
        name = r if isinstance(r, str) else r.name if isinstance(r, ClassInfo) else ""
        return name.startswith("typing.") or name in ("list", "dict", "set", "tuple", "frozenset", "type") or isinstance(r, ClassInfo) and not isinstance(e.slice, ast.Constant)
    if isinstance(e, ast.Name) and e.id in local or not isinstance(e, (ast.Name, ast.Attribute)):
        return False
    r = prog.resolve_expr(m, e)
    if isinstance(r, str):
        if r in ALIASES:
            return True
        mod, _, n = r.rpartition(".")
        if mod in prog.modules:
            v = prog.modules[mod].variables.get(n)
            return v is not None and parametrised(prog, prog.modules[mod], v, set())
    if isinstance(e, ast.Name) and e.id in m.variables:
        return parametrised(prog, m, m.variables[e.id], set())
    if isinstance(r, tuple) and len(r) >= 3 and isinstance(r[1], Module):
        v = r[1].variables.get(r[2])
        return v is not None and parametrised(prog, r[1], v, set())
    return False


def identity(ctx: Ctx, f: FuncInfo) -> None:
    local = {a.arg for a in [*f.args.posonlyargs, *f.args.args, *f.args.kwonlyargs]} | {n.id for n in walk_own(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    n = 0
    for c in walk_own(f.node):
        if isinstance(c, ast.Compare):
            left = c.left
            for op, right in zip(c.ops, c.comparators):
                if isinstance(op, (ast.Is, ast.IsNot)):
                    n += 1
                    for x in (left, right):
                        if parametrised(ctx.prog, f.module, x, local):
                            ctx.bad("identity", f"{f.short}: {ast.unparse(c)}", f"{f.module.relpath}:{c.lineno}", "whether a type expression is the same object as another depends on what ran before; compare for equality")
                left = right
    ctx.count("comparisons of identity", n)


def check(ctx: Ctx) -> None:
    an = Analysis(ctx)
    funcs = [f for f in ctx.prog.functions() if in_scope(f.module) and not f.is_overload and f.parent is None]
    for _ in range(8):
        an.changed = False
        for f in funcs:
            function(an, f)
        if not an.changed:
            break
    else:
        ctx.notes.append("the analysis was stopped before it reached a fixed point")
    an.report = True
    for f in funcs:
        before = len(an.found)
        n = an.sinks
        function(an, f)
        identity(ctx, f)
        ctx.analysed(f)
        ctx.count("functions")
        if len(an.found) == before and an.sinks > n:
            ctx.ok("order", f"{f.short}: {an.sinks - n} uses of unordered collections do not depend on their order", f.loc())
    for (loc, _), (rule, construct, what) in sorted(an.found.items()):
        ctx.bad(rule, construct, loc, what)
    ctx.count("places where order could matter", an.sinks)
    ctx.minimum("functions", 300)
    ctx.minimum("places where order could matter", 5)
