"""
Await discipline. Every function of the package is evaluated abstractly to resolve each call expression to the definitions it can
reach (receiver types, class hierarchy); calls on PostgreSQL, MySQL and Trino driver handles are classified by a frozen table of
the drivers' asynchronous operations. A call that creates a coroutine must be consumed: awaited, returned from a plain function
(which thereby counts as coroutine-valued), handed to an asyncio combinator that is itself consumed, or bound to a name all
uses of which are such. A call of an asynchronous generator must be iterated with `async for`, returned or handed on. A call
that resolves only to plain functions must not be awaited; `async for` ranges over asynchronous iterables only, plain `for`
over plain iterables only, and `async with` is used exactly on asynchronous context managers.
"""

import ast
from typing import Optional

from ..calls import Calls, Driver
from ..framework import Ctx
from ..interp import Interp, NoReturn
from ..program import AnalysisError, ClassInfo, FuncInfo, dotted, walk_own
from ..sigs import nature
from ..types import alts, strip_none

ASSUMPTIONS = [
    "asynchronous operations of asyncpg 0.3x, aiomysql 0.2+/0.3 and aiotrino 0.3 are those of the table in the rule",
]

BLOCKING = {"pyodbc", "oracledb", "redshift_connector"}
ASYNC_ROOTS = {"asyncpg", "aiomysql", "aiotrino"}
# operations of an asynchronous driver: name -> how the result of the call is consumed
DRIVER = {
    "asyncpg": {"connect": "await", "execute": "await", "executemany": "await", "fetch": "await", "fetchrow": "await", "fetchval": "await", "copy_records_to_table": "await", "copy_to_table": "await", "close": "await", "prepare": "await", "get_server_version": "plain", "transaction": "acm", "start": "await", "commit": "await", "rollback": "await", "terminate": "plain"},
    "aiomysql": {"connect": "either", "cursor": "either", "execute": "await", "executemany": "await", "fetchone": "await", "fetchmany": "await", "fetchall": "await", "ensure_closed": "await", "commit": "await", "rollback": "await", "begin": "await", "ping": "await", "autocommit": "await", "callproc": "await", "nextset": "await"},
    "aiotrino": {"connect": "plain", "cursor": "await", "execute": "await", "executemany": "await", "fetchone": "await", "fetchmany": "await", "fetchall": "await", "commit": "await", "rollback": "await", "describe": "await", "cancel": "await"},
}
# closing differs by what is closed
CLOSE = {"asyncpg": "await", "aiomysql.connection": "plain", "aiomysql.cursor": "await", "aiotrino": "await"}
AIO_CORO = {"gather", "wait_for", "sleep", "wait", "shield", "to_thread", "run_in_executor", "open_connection"}
AIO_TASK = {"create_task", "ensure_future", "run_coroutine_threadsafe"}
AIO_RUN = {"run", "run_until_complete"}


class Resolver(Interp):
    def __init__(self, *a, **k) -> None:
        super().__init__(*a, **k)
        self.resolved: dict[int, set[FuncInfo]] = {}
        self.external: set[int] = set()
        self.iter_ty: dict[int, list] = {}

    def call_func(self, f, recv, pos, kw, st, e, self_cls=None, exact=True, super_=False, unbound=False, alt=None):
        s = self.resolved.setdefault(id(e), set())
        s.add(f)
        if recv is not None and f.cls is not None and not exact:
            for c in f.cls.all_subclasses():
                if f.name in c.methods:
                    s.add(c.methods[f.name])
        return super().call_func(f, recv, pos, kw, st, e, self_cls, exact, super_, unbound, alt)

    def call_builtin_method(self, recv, name, pos, kw, st, e):
        t = strip_none(recv.ty)
        if t.kind in ("ext",) or recv.op in ("ref", "seq", "tup", "const", "tmpl", "join"):
            self.external.add(id(e))
        return super().call_builtin_method(recv, name, pos, kw, st, e)

    def iterate(self, src, st, body, names, node, wrap=lambda x: x):
        self.iter_ty.setdefault(id(node), []).append(src)
        return super().iterate(src, st, body, names, node, wrap)


def check(ctx: Ctx) -> None:
    prog = ctx.prog
    calls = Calls(prog)
    drv = {r: Driver(prog, calls, {r}) for r in sorted(ASYNC_ROOTS)}
    plain_drv = Driver(prog, calls, BLOCKING)
    funcs = [f for f in prog.functions()]
    lambdas: list[FuncInfo] = []
    resolved: dict[int, set[FuncInfo]] = {}
    external: set[int] = set()
    iter_ty: dict[int, list] = {}
    for f in funcs:
        if f.parent is not None:
            continue
        r = Resolver(prog, ctx.tr, None)
        subs = [f] + nested_of(funcs, f)
        for g in subs:
            try:
                r.run(g, g.cls if g.cls is not None else f.cls)
            except (NoReturn, AnalysisError):
                pass
        ctx.analysed(f)
        for k, v in r.resolved.items():
            resolved.setdefault(k, set()).update(v)
        external |= r.external
        for k2, v2 in r.iter_ty.items():
            iter_ty.setdefault(k2, []).extend(v2)
    by_name = calls.by_name
    # sync functions returning coroutines
    coro_valued: set[int] = set()

    def targets(f: FuncInfo, n: ast.Call) -> set[FuncInfo]:
        t = resolved.get(id(n))
        if t:
            return t
        if id(n) in external:
            return set()
        if isinstance(n.func, ast.Attribute):
            d = dotted(n.func)
            if d is not None and isinstance(prog.resolve_expr(f.module, n.func), str) and d.split(".")[0] in f.module.imports:
                return set()
            c = by_name.get(n.func.attr, [])
            return set(c)
        return set(calls.resolve(f, n))

    def nat(g: FuncInfo) -> str:
        n = nature(g)
        if n in ("sync", "property") and id(g.node) in coro_valued:
            return "coroutine"
        if n == "sync" and not g.is_generator:
            r = ctx.tr.annot(g.module, getattr(g.node, "returns", None))
            if r.kind == "coro":
                return "coroutine"
        return n

    def driver_kind(f: FuncInfo, n: ast.Call) -> Optional[str]:
        for root, d in drv.items():
            m = d.module_call(f, n)
            if m is not None:
                k = DRIVER[root].get(m.split(".")[-1])
                return k
            if isinstance(n.func, ast.Attribute) and d.handle(f, n.func.value):
                op = n.func.attr
                if op == "close":
                    if root == "aiomysql":
                        cur = any(isinstance(x, ast.Name) and "cur" in x.id.lower() for x in ast.walk(n.func.value))
                        return CLOSE["aiomysql.cursor" if cur else "aiomysql.connection"]
                    return CLOSE[root]
                return DRIVER[root].get(op)
        return None

    def classify(f: FuncInfo, n: ast.AST) -> Optional[str]:
        "await: a coroutine; either: awaitable context manager; agen; plain; None: unknown"
        if isinstance(n, ast.Call):
            k = driver_kind(f, n)
            if k is not None:
                return k
            if plain_drv.module_call(f, n) is not None or isinstance(n.func, ast.Attribute) and plain_drv.handle(f, n.func.value):
                return "plain"
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
            d = dotted(n.func) or ""
            if d.startswith("asyncio.") or nm in ("run_in_executor", "create_task", "gather"):
                last = nm
                if last in AIO_CORO:
                    return "await"
                if last in AIO_TASK:
                    return "await"
                return "plain" if d.startswith("asyncio.") else None
            ts = targets(f, n)
            ts = {t for t in ts if t.name != "__init__"}
            if not ts:
                return None
            ns = {nat(t) for t in ts}
            sure = id(n) in resolved
            if "property" in ns:
                return None
            if len(ns) > 1:
                concrete = {nat(t) for t in ts if not t.is_abstract}
                ns = concrete if len(concrete) == 1 else ns
            if ns == {"coroutine"}:
                return "await"
            if ns == {"asyncgen"}:
                return "agen"
            if ns == {"sync"}:
                return "plain" if sure else None
            return "mixed" if sure else None
        return None

    AWAITERS = AIO_CORO | AIO_TASK | AIO_RUN | {"as_completed"}

    problems: list[tuple[FuncInfo, ast.AST, str]] = []

    def consume(f: FuncInfo, n: ast.AST, par: dict, kind: str, seen: frozenset = frozenset()) -> Optional[str]:
        "Reason why the asynchronous value is not properly consumed."
        p = par.get(id(n))
        agen = kind == "agen"
        if p is None:
            return "is dropped"
        if isinstance(p, ast.Await):
            return "is an asynchronous generator, which cannot be awaited" if agen or kind == "acm" else None
        if isinstance(p, ast.withitem):
            w = par.get(id(p))
            if isinstance(w, ast.AsyncWith):
                return None if kind in ("either", "acm") else "is a coroutine used as an asynchronous context manager without being awaited"
            return "is an asynchronous value used in a plain `with`"
        if isinstance(p, (ast.AsyncFor,)) and p.iter is n:
            return None if agen else "is a coroutine that is iterated without being awaited"
        if isinstance(p, ast.comprehension) and p.iter is n:
            if p.is_async:
                return None if agen else "is a coroutine that is iterated without being awaited"
            return "is iterated as a plain sequence"
        if isinstance(p, ast.For) and p.iter is n:
            return "is iterated as a plain sequence"
        if isinstance(p, (ast.Return,)) or isinstance(p, ast.Lambda):
            if isinstance(p, ast.Return) and f.is_async and not agen:
                return "is returned by a coroutine function without being awaited"
            if isinstance(p, ast.Return) and not f.is_async and f.has_decorator("thread_dispatch"):
                return "is returned by a function dispatched to a thread"
            return None
        if isinstance(p, ast.Expr):
            return "is created and dropped"
        if isinstance(p, (ast.List, ast.Tuple, ast.Set, ast.Starred)) and not agen:
            return held(f, p, par, seen) if not isinstance(p, ast.Starred) else consume(f, p, par, kind, seen)
        if isinstance(p, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and getattr(p, "elt", None) is n and not agen:
            return held(f, p, par, seen)
        if isinstance(p, ast.IfExp):
            return "is tested for truth" if p.test is n else consume(f, p, par, kind, seen)
        if isinstance(p, ast.NamedExpr):
            return use_of_name(f, p.target.id, par, kind, seen) if isinstance(p.target, ast.Name) else None
        if isinstance(p, ast.Assign):
            t = p.targets[0]
            if isinstance(t, ast.Name):
                return use_of_name(f, t.id, par, kind, seen)
            return None  # stored in an attribute
        if isinstance(p, ast.AnnAssign) and isinstance(p.target, ast.Name):
            return use_of_name(f, p.target.id, par, kind, seen)
        if isinstance(p, ast.keyword):
            p = par.get(id(p))
        if isinstance(p, ast.Call):
            nm = p.func.attr if isinstance(p.func, ast.Attribute) else p.func.id if isinstance(p.func, ast.Name) else ""
            if p.func is n:
                return "is called"
            if nm in AWAITERS:
                if nm in AIO_TASK | AIO_CORO:
                    return consume(f, p, par, "await", seen)
                return None
            if nm == "cast":
                return consume(f, p, par, kind, seen)
            if nm in ("append", "add", "appendleft", "insert") and isinstance(p.func, ast.Attribute) and not agen:
                box = p.func.value
                return held_by_name(f, box.id, par, seen) if isinstance(box, ast.Name) else None
            if agen:
                return None if nm not in ("list", "tuple", "set", "sorted", "len", "next", "enumerate", "zip", "bool", "str") else "is used as a plain iterable"
            ts = targets(f, p)
            if ts and any(param_awaitable(ctx, t) for t in ts):
                return None
            return f"is passed to `{nm}` as if it were its result"
        if isinstance(p, (ast.If, ast.While, ast.BoolOp, ast.Assert)) or isinstance(p, ast.UnaryOp):
            return "is tested for truth"
        if isinstance(p, ast.Yield):
            return None
        if isinstance(p, ast.Attribute) and kind == "acm" and p.attr in ("start", "commit", "rollback") and isinstance(par.get(id(p)), ast.Call):
            # a transaction that is controlled explicitly; the operations are awaited themselves
            return None
        if isinstance(p, (ast.Attribute, ast.Subscript, ast.Compare, ast.BinOp, ast.FormattedValue, ast.AugAssign, ast.Dict, ast.YieldFrom, ast.DictComp, ast.Raise)):
            return "is used as if it were its result"
        return None

    def held(f: FuncInfo, box: ast.AST, par: dict, seen: frozenset) -> Optional[str]:
        "Reason why the elements of a collection of coroutines are not awaited."
        p = par.get(id(box))
        never = "is put in a collection whose elements are never awaited"
        if isinstance(p, (ast.Starred, ast.keyword)) or isinstance(p, ast.IfExp) and p.test is not box or isinstance(p, ast.Await):
            return held(f, p, par, seen)
        if isinstance(p, ast.comprehension) and p.iter is box:
            c = par.get(id(p))
            return None if isinstance(p.target, ast.Name) and awaits(c, p.target.id, f, par) else never
        if isinstance(p, (ast.For, ast.AsyncFor)) and p.iter is box:
            names = {x.id for x in ast.walk(p.target) if isinstance(x, ast.Name)}
            return None if any(awaits(b, x, f, par) for b in p.body for x in names) else never
        if isinstance(p, (ast.Return, ast.Yield, ast.Lambda)):
            return None
        if isinstance(p, ast.Subscript) and p.value is box:
            return consume(f, p, par, "await", seen)
        if isinstance(p, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
            t = p.targets[0] if isinstance(p, ast.Assign) else p.target
            if isinstance(t, (ast.Tuple, ast.List)):
                whys = [use_of_name(f, x.id, par, "await", seen) for x in t.elts if isinstance(x, ast.Name)]
                return next((w for w in whys if w is not None), None)
            return held_by_name(f, t.id, par, seen) if isinstance(t, ast.Name) else None
        if isinstance(p, (ast.List, ast.Tuple, ast.Set, ast.BinOp)):
            return held(f, p, par, seen)
        if isinstance(p, ast.Call):
            nm = p.func.attr if isinstance(p.func, ast.Attribute) else p.func.id if isinstance(p.func, ast.Name) else ""
            if nm in AWAITERS:
                return consume(f, p, par, "await", seen) if nm in AIO_TASK | AIO_CORO else None
            if nm in ("list", "tuple", "set", "reversed", "enumerate", "zip", "sorted", "deque", "cast", "chain"):
                return held(f, p, par, seen)
            if nm in ("append", "extend", "appendleft") and isinstance(p.func, ast.Attribute) and box in p.args:
                return held_by_name(f, p.func.value.id, par, seen) if isinstance(p.func.value, ast.Name) else None
            if any(param_awaitable(ctx, t) for t in targets(f, p)):
                return None
        return never

    def awaits(scope: ast.AST, name: str, f: FuncInfo, par: dict) -> bool:
        "Whether a loop variable that holds a coroutine is awaited or handed to a combinator."
        for m in ast.walk(scope):
            if isinstance(m, ast.Name) and m.id == name and isinstance(m.ctx, ast.Load) and id(m) in par:
                p = par[id(m)]
                if isinstance(p, ast.Await):
                    return True
                if isinstance(p, ast.Call) and p.func is not m:
                    nm = p.func.attr if isinstance(p.func, ast.Attribute) else getattr(p.func, "id", "")
                    if nm in AWAITERS:
                        return True
        return False

    def held_by_name(f: FuncInfo, name: str, par: dict, seen: frozenset) -> Optional[str]:
        if name in seen:
            return "is put in a collection whose elements are never awaited"
        uses = [m for m in walk_own(f.node) if isinstance(m, ast.Name) and m.id == name and isinstance(m.ctx, ast.Load)]
        nested = [m for g in funcs if g.parent is not None and root_of(g) is root_of(f) and g is not f for m in walk_own(g.node) if isinstance(m, ast.Name) and m.id == name]
        outer = f.parent is not None and not any(isinstance(m, ast.Name) and m.id == name and isinstance(m.ctx, ast.Store) for m in walk_own(f.node))
        if nested or outer:
            return None
        if any(held(f, u, par, seen | {name}) is None for u in uses):
            return None
        return f"is put in `{name}`, whose elements are never awaited"

    def use_of_name(f: FuncInfo, name: str, par: dict, kind: str, seen: frozenset) -> Optional[str]:
        if name in seen:
            return None
        uses = []
        for m in list(walk_own(f.node)):
            if isinstance(m, ast.Name) and m.id == name and isinstance(m.ctx, ast.Load):
                uses.append(m)
        nested = [m for g in funcs if g.parent is not None and root_of(g) is root_of(f) and g is not f for m in walk_own(g.node) if isinstance(m, ast.Name) and m.id == name]
        if not uses and not nested:
            return f"is assigned to `{name}` and never awaited"
        # the name may be rebound to other values: accept if at least one use consumes the value and report only if none does
        whys = [consume(f, u, par, kind, seen | {name}) for u in uses]
        if any(w is None for w in whys) or nested:
            rebound = sum(1 for m in walk_own(f.node) if isinstance(m, ast.Name) and m.id == name and isinstance(m.ctx, ast.Store))
            if rebound <= 1:
                bad = [w for w in whys if w is not None]
                return bad[0] if bad and len(bad) == len(whys) else None
            return None
        return whys[0]

    # fixpoint for plain functions that return coroutines
    changed = True
    while changed:
        changed = False
        for f in funcs:
            if f.is_async or id(f.node) in coro_valued or isinstance(f.node, ast.Lambda):
                continue
            rets = [n for n in walk_own(f.node) if isinstance(n, ast.Return) and n.value is not None]
            if rets and all(classify(f, r.value) in ("await",) for r in rets):
                coro_valued.add(id(f.node))
                changed = True

    for f in funcs:
        par: dict[int, ast.AST] = {}
        for n in ast.walk(f.node):
            for c in ast.iter_child_nodes(n):
                par[id(c)] = n
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                k = classify(f, n)
                if k in ("await", "either", "agen", "acm"):
                    ctx.count("asynchronous calls")
                    if driver_kind(f, n) is not None:
                        ctx.count("asynchronous driver calls")
                    why = consume(f, n, par, k)
                    ctx.check(why is None, "coroutine-consumed", f"{f.short}: {name_of(n)}", f.loc(n), f"result of asynchronous `{name_of(n)}` {why}")
            if isinstance(n, ast.Await) and isinstance(n.value, ast.Call):
                k = classify(f, n.value)
                ctx.count("awaits")
                if k in ("plain", "mixed"):
                    ctx.bad("await-plain", f"{f.short}: {name_of(n.value)}", f.loc(n), f"`{name_of(n.value)}` is not a coroutine but its result is awaited")
                else:
                    ctx.ok("await-plain", f"{f.short}: {name_of(n.value)}", f.loc(n))
            loops = []
            if isinstance(n, (ast.For, ast.AsyncFor)):
                loops.append((n, n.iter, isinstance(n, ast.AsyncFor), id(n)))
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                if len(n.generators) == 1:
                    loops.append((n, n.generators[0].iter, bool(n.generators[0].is_async), id(n)))
            for node, it, is_async, key in loops:
                for src in iter_ty.get(key, []):
                    t = strip_none(src.ty)
                    for a in alts(t):
                        asy = a.kind == "ext" and a.ref in ("asynciterable", "AsyncIterator", "AsyncGenerator", "typing.AsyncGenerator", "typing.AsyncIterator")
                        plain = a.kind == "ext" and a.ref in ("list", "iterable", "set", "dict", "tuple", "items", "keys")
                        if isinstance(it, ast.Call) and classify(f, it) == "agen":
                            asy, plain = True, False
                        if is_async:
                            ctx.check(not plain or asy, "async-for", f"{f.short}: {ast.unparse(it)[:60]}", f.loc(node), "`async for` over a plain iterable")
                        else:
                            ctx.check(not asy, "plain-for", f"{f.short}: {ast.unparse(it)[:60]}", f.loc(node), "plain `for` over an asynchronous iterable")
                if is_async and isinstance(it, ast.Call) and classify(f, it) in ("plain", "await", "either"):
                    ctx.bad("async-for", f"{f.short}: {ast.unparse(it)[:60]}", f.loc(node), "`async for` over a value that is not an asynchronous iterable")
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    e = i.context_expr
                    handles = [r for r, d in drv.items() if d.handle(f, e)]
                    cls = static_class(ctx, f, e)
                    if isinstance(n, ast.With):
                        bad = bool(handles) or (cls is not None and cls.find_method("__aenter__") is not None and cls.find_method("__enter__") is None)
                        ctx.check(not bad, "plain-with", f"{f.short}: {ast.unparse(e)[:60]}", f.loc(n), "asynchronous context manager used in a plain `with`")
                    else:
                        bad = cls is not None and cls.find_method("__aenter__") is None
                        ctx.check(not bad, "async-with", f"{f.short}: {ast.unparse(e)[:60]}", f.loc(n), "`async with` on a value that is not an asynchronous context manager")
    ctx.minimum("asynchronous calls", 100)
    ctx.minimum("asynchronous driver calls", 15)
    ctx.minimum("awaits", 100)


def param_awaitable(ctx: Ctx, t: FuncInfo) -> bool:
    a = t.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        if p.annotation is not None and ctx.tr.annot(t.module, p.annotation).kind == "coro":
            return True
    return False


def root_of(f: FuncInfo) -> FuncInfo:
    while f.parent is not None:
        f = f.parent
    return f


def nested_of(funcs: list[FuncInfo], f: FuncInfo) -> list[FuncInfo]:
    return [g for g in funcs if g.parent is not None and root_of(g).node is f.node]


def name_of(n: ast.Call) -> str:
    return dotted(n.func) or (n.func.attr if isinstance(n.func, ast.Attribute) else ast.unparse(n.func)[:40])


def static_class(ctx: Ctx, f: FuncInfo, e: ast.AST) -> Optional[ClassInfo]:
    if isinstance(e, ast.Call):
        r = ctx.prog.resolve_expr(f.module, e.func) if not isinstance(e.func, ast.Call) else None
        if isinstance(r, ClassInfo):
            return r
    if isinstance(e, ast.Name):
        for p in f.args.posonlyargs + f.args.args + f.args.kwonlyargs:
            if p.arg == e.id and p.annotation is not None:
                t = strip_none(ctx.tr.annot(f.module, p.annotation))
                return t.ref if t.kind == "cls" else None  # type: ignore
    return None
