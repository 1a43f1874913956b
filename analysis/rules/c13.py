"""
Exception-flow rules on the syntax tree with call resolution. (1) From each public operation of a context (base class and every
override) each path to the driver hook (_execute, _execute_all, _query_all) is covered by a handler of all exceptions that
raises QueryException(statement) with the caught error as cause; more specific handlers before it re-raise or convert in the
same way; the constructor stores the statement in the exception. (2) Every exception handler of the library either raises
on all its paths, or is one of the sanctioned ones (capability probes of the catalog explorer, SSL fallbacks of PostgreSQL and
MySQL, the import of a driver module, exhaustion of an iterator), or handles a lookup error of a try body in which nothing is
awaited and no driver or library function is called. (3) No `return`, `break` or `continue` in a `finally` block, no
contextlib.suppress of an error, no gather(return_exceptions=True), and no `__exit__`/`__aexit__` that may return true.
(4) A QueryException raised in a handler names the caught error as its cause. (5) The outcome of a future that is waited for is
retrieved, and an error that is examined is raised.
"""

import ast
from typing import Optional

from ..calls import Calls, Driver
from ..framework import Ctx, events
from ..program import AnalysisError, FuncInfo, dotted, walk_own
from ..terms import show, walk

ASSUMPTIONS = [
    "driver errors derive from Exception (cancellation and interpreter exit, which do not, are passed through)",
]
ROOTS = {"asyncpg", "aiomysql", "pymysql", "aiotrino", "pyodbc", "oracledb", "redshift_connector"}
HOOKS = {"execute": {"_execute"}, "execute_all": {"_execute_all"}, "query_all": {"_query_all"}, "query_one": {"_query_all"}}
LOCAL = {"KeyError", "IndexError", "StopIteration", "StopAsyncIteration", "AttributeError", "ValueError", "TypeError", "LookupError", "UnicodeDecodeError"}
ITER = {"StopIteration", "StopAsyncIteration"}


def exc_names(h: ast.ExceptHandler) -> list[str]:
    if h.type is None:
        return ["BaseException"]
    return [(dotted(e) or ast.unparse(e)) for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]


def last(n: str) -> str:
    return n.split(".")[-1]


def terminates(stmts: list[ast.stmt], noreturn) -> bool:
    "All paths through the statements raise."
    for s in stmts:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, (ast.Return, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.If) and s.orelse and terminates(s.body, noreturn) and terminates(s.orelse, noreturn):
            return True
        if isinstance(s, (ast.With, ast.AsyncWith)) and terminates(s.body, noreturn):
            return True
        if isinstance(s, ast.Try) and not s.handlers and (terminates(s.body, noreturn) or terminates(s.finalbody, noreturn)):
            return True
        if isinstance(s, ast.Try) and s.handlers and terminates(s.body + s.orelse, noreturn) and all(terminates(h.body, noreturn) for h in s.handlers):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Call, ast.Await)):
            c = s.value.value if isinstance(s.value, ast.Await) else s.value
            if isinstance(c, ast.Call) and noreturn(c):
                return True
        if has_exit(s):
            return False
    return False


def has_exit(s: ast.stmt) -> bool:
    "Contains a statement that leaves the handler without raising."
    for n in walk_own_stmt(s):
        if isinstance(n, (ast.Return, ast.Continue, ast.Break)):
            return True
    return False


def walk_own_stmt(s: ast.stmt):
    yield s
    for c in ast.iter_child_nodes(s):
        if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield from walk_own_stmt(c)  # type: ignore


def parents_of(f: FuncInfo) -> dict[int, ast.AST]:
    par: dict[int, ast.AST] = {}
    for n in ast.walk(f.node):
        for c in ast.iter_child_nodes(n):
            par[id(c)] = n
    return par


class Rules:
    def __init__(self, ctx: Ctx) -> None:
        self.ctx = ctx
        self.prog = ctx.prog
        self.calls = Calls(ctx.prog)
        self.drv = Driver(ctx.prog, self.calls, ROOTS)
        self.par: dict[int, dict[int, ast.AST]] = {}
        self.raises_only: dict[int, bool] = {}

    def parents(self, f: FuncInfo) -> dict[int, ast.AST]:
        if id(f.node) not in self.par:
            self.par[id(f.node)] = parents_of(f)
        return self.par[id(f.node)]

    def noreturn(self, f: FuncInfo):
        def go(c: ast.Call) -> bool:
            ts = self.calls.resolve(f, c)
            return bool(ts) and all(self.never_returns(t) for t in ts)
        return go

    def never_returns(self, t: FuncInfo) -> bool:
        k = id(t.node)
        if k not in self.raises_only:
            self.raises_only[k] = False
            self.raises_only[k] = not isinstance(t.node, ast.Lambda) and terminates(t.node.body, self.noreturn(t))  # type: ignore
        return self.raises_only[k]

    # -- conversion of errors

    def converting(self, f: FuncInfo, h: ast.ExceptHandler, stmt: Optional[str]) -> Optional[str]:
        "Reason why the handler does not raise QueryException(statement) from the caught error."
        noreturn = self.noreturn(f)
        raises = [n for s in h.body for n in walk_own_stmt(s) if isinstance(n, ast.Raise)]
        if not terminates(h.body, noreturn):
            return "the handler may complete without raising"
        for r in raises:
            if r.exc is None or isinstance(r.exc, ast.Name) and r.exc.id == h.name and r.cause is None:
                if self.already_converted(f, h, r):
                    continue
            if r.exc is None:
                if all(last(n) == "QueryException" for n in exc_names(h)):
                    continue
                return "the handler re-raises the driver's error unconverted"
            c = r.exc
            if isinstance(c, ast.Name) and c.id == h.name:
                if all(last(n) == "QueryException" for n in exc_names(h)):
                    continue
                return "the handler re-raises the driver's error unconverted"
            if isinstance(c, ast.Name):
                asg = [n for s in h.body for n in walk_own_stmt(s) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == c.id for t in n.targets)]
                if len(asg) == 1:
                    c = asg[0].value
            if isinstance(c, ast.Call) and not self.is_query_exception(f, c):
                ts = self.calls.resolve(f, c)
                if len(ts) == 1 and ts[0].name != "__init__":
                    c2 = self.returned_exception(ts[0], c)
                    c = c2 if c2 is not None else c
            if not isinstance(c, ast.Call) or not self.is_query_exception(f, c):
                return f"the handler raises {ast.unparse(c)[:60]} and not a QueryException"
            arg = c.args[0] if c.args else next((k.value for k in c.keywords), None)
            if stmt is not None and (not isinstance(arg, ast.Name) or arg.id != stmt):
                return f"the query error carries `{ast.unparse(arg) if arg is not None else ''}` and not the statement"
            cause = r.cause
            if cause is None and isinstance(r.exc, ast.Name):
                for n in (n for s in h.body for n in walk_own_stmt(s)):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == "__cause__" and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == r.exc.id:
                        cause = n.value
            if cause is None or not isinstance(cause, ast.Name) or cause.id != h.name:
                return "the query error does not carry the driver's error as its cause"
        if not raises:
            # raises through a function that never returns
            for s in h.body:
                for n in walk_own_stmt(s):
                    if isinstance(n, ast.Call):
                        for t in self.calls.resolve(f, n):
                            if self.never_returns(t):
                                return self.raising_helper(f, t, n, h, stmt)
            return "the handler raises no query error"
        return None

    def already_converted(self, f: FuncInfo, h: ast.ExceptHandler, r: ast.Raise) -> bool:
        "The error is re-raised only where it is known to be a query exception."
        def positive(t: ast.AST) -> Optional[bool]:
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                v = positive(t.operand)
                return None if v is None else not v
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2:
                if isinstance(t.args[0], ast.Name) and t.args[0].id == h.name and last(dotted(t.args[1]) or "") == "QueryException":
                    return True
            return None
        par = self.parents(f)
        child: ast.AST = r
        p = par.get(id(r))
        while p is not None and child is not h:
            if isinstance(p, ast.If) and positive(p.test) is not None:
                if any(child is s for s in (p.body if positive(p.test) else p.orelse)):
                    return True
            for block in (getattr(p, "body", None), getattr(p, "orelse", None)):
                if isinstance(block, list) and any(child is s for s in block):
                    for s in block[: next(i for i, x in enumerate(block) if x is child)]:
                        if isinstance(s, ast.If) and positive(s.test) is False and terminates(s.body, self.noreturn(f)):
                            return True
            child, p = p, par.get(id(p))
        return False

    def raising_helper(self, f: FuncInfo, t: FuncInfo, call: ast.Call, h: ast.ExceptHandler, stmt: Optional[str]) -> Optional[str]:
        ps = [p.arg for p in t.args.posonlyargs + t.args.args]
        if t.cls is not None and not t.is_static:
            ps = ps[1:]
        amap = {p: a for p, a in zip(ps, call.args)}
        amap.update({k.arg: k.value for k in call.keywords if k.arg})
        raises = [n for n in walk_own(t.node) if isinstance(n, ast.Raise)]
        for r in raises:
            c = r.exc
            if not isinstance(c, ast.Call) or not self.is_query_exception(t, c):
                return f"the handler raises {ast.unparse(c)[:60] if c is not None else 'nothing new'} and not a QueryException"
            arg = c.args[0] if c.args else next((k.value for k in c.keywords), None)
            a = amap.get(arg.id) if isinstance(arg, ast.Name) else None
            if stmt is not None and not (isinstance(a, ast.Name) and a.id == stmt):
                return "the query error does not carry the statement"
            b = amap.get(r.cause.id) if isinstance(r.cause, ast.Name) else None
            if not (isinstance(b, ast.Name) and b.id == h.name):
                return "the query error does not carry the driver's error as its cause"
        return None if raises else "the handler raises no query error"

    def returned_exception(self, t: FuncInfo, call: ast.Call) -> Optional[ast.Call]:
        "QueryException(...) constructed by a helper, in terms of the arguments of the caller."
        ps = [p.arg for p in t.args.posonlyargs + t.args.args]
        if t.cls is not None and not t.is_static:
            ps = ps[1:]
        amap = {p: a for p, a in zip(ps, call.args)}
        amap.update({k.arg: k.value for k in call.keywords if k.arg})
        rets = [n for n in walk_own(t.node) if isinstance(n, ast.Return)]
        if len(rets) == 1 and isinstance(rets[0].value, ast.Call) and self.is_query_exception(t, rets[0].value):
            c = rets[0].value
            args = [amap.get(a.id, a) if isinstance(a, ast.Name) else a for a in c.args]
            return ast.Call(func=call.func if False else c.func, args=args, keywords=c.keywords)
        return None

    def is_query_exception(self, f: FuncInfo, c: ast.Call) -> bool:
        d = dotted(c.func) or ""
        r = self.prog.resolve_expr(f.module, c.func)
        from ..program import ClassInfo
        if isinstance(r, ClassInfo):
            return r.is_subclass_of("QueryException")
        return last(d) == "QueryException"

    def try_converts(self, f: FuncInfo, t: ast.Try, stmt: Optional[str]) -> Optional[str]:
        "Reason why an error in the body of the try statement is not converted."
        for h in t.handlers:
            names = [last(n) for n in exc_names(h)]
            why = self.converting(f, h, stmt)
            if any(n in ("Exception", "BaseException") for n in names):
                return why
            if why is not None:
                return f"handler of {', '.join(names)}: {why}"
        return "no handler catches every exception"

    def contextmanager_converts(self, f: FuncInfo, item: ast.withitem, stmt: Optional[str]) -> Optional[str]:
        c = item.context_expr
        if not isinstance(c, ast.Call):
            return "no conversion"
        for t in self.calls.resolve(f, c):
            if t.has_decorator("contextmanager", "asynccontextmanager"):
                ps = [p.arg for p in t.args.posonlyargs + t.args.args]
                if t.cls is not None and not t.is_static:
                    ps = ps[1:]
                amap = {p: a for p, a in zip(ps, c.args)}
                amap.update({k.arg: k.value for k in c.keywords if k.arg})
                inner = next((p for p, a in amap.items() if isinstance(a, ast.Name) and a.id == stmt), None)
                par = self.parents(t)
                ys = [n for n in walk_own(t.node) if isinstance(n, ast.Yield)]
                if ys and all(self.covered_in(t, y, inner or "?", par) is None for y in ys):
                    return None
        return "no conversion"

    def covered_in(self, f: FuncInfo, n: ast.AST, stmt: Optional[str], par: dict) -> Optional[str]:
        "Reason why errors of the node are not converted within the function."
        why = "it is not in the body of a try statement"
        child, p = n, par.get(id(n))
        while p is not None:
            if isinstance(p, ast.Try) and any(child is s for s in p.body):
                w = self.try_converts(f, p, stmt)
                if w is None:
                    return None
                why = w
                if w != "no handler catches every exception":
                    return w
            if isinstance(p, (ast.With, ast.AsyncWith)) and any(child is s for s in p.body):
                for i in p.items:
                    if self.contextmanager_converts(f, i, stmt) is None:
                        return None
            child, p = p, par.get(id(p))
        return why

    def public(self) -> None:
        ctx, prog = self.ctx, self.prog
        base = prog.find_class("BaseContext")
        for c in [base] + base.all_subclasses():
            for op, hooks in HOOKS.items():
                f = c.methods.get(op)
                if f is None:
                    continue
                n = self.reach(f, hooks, [], 0)
                if op == "query_one":
                    # delegates to query_all, or reaches the hook itself
                    deleg = [x for x in walk_own(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "query_all"]
                    ctx.check(bool(deleg) or n > 0, "operation-reaches-driver", f.short, f.loc(), "query_one runs no query")
                else:
                    deleg = [x for x in walk_own(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == op and isinstance(x.func.value, ast.Call)]
                    ctx.check(n > 0 or bool(deleg), "operation-reaches-driver", f.short, f.loc(), f"no call of the driver hook found in {op}")

    def reach(self, f: FuncInfo, hooks: set[str], stack: list, depth: int) -> int:
        "Checks all hook calls reached from the function; the stack holds (function, call) pairs leading to it."
        ctx = self.ctx
        ctx.analysed(f)
        par = self.parents(f)
        n_found = 0
        for n in walk_own(f.node):
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute):
                continue
            if n.func.attr in hooks:
                n_found += 1
                ctx.count("hook calls")
                why = self.covered(f, n, par, stack)
                names = " -> ".join(g.short for g, _ in stack + [(f, n)])
                ctx.check(why is None, "driver-error-converted", f"{names} -> {n.func.attr}", f.loc(n), f"an error of the driver reaches the caller unconverted: {why}")
            elif depth < 4:
                for t in self.calls.resolve(f, n):
                    if t.cls is not None and t.cls.is_subclass_of("BaseContext") and t.name not in HOOKS and all(t is not g for g, _ in stack) and t is not f and isinstance(n.func.value, (ast.Name, ast.Call)):
                        n_found += self.reach(t, hooks, stack + [(f, n)], depth + 1)
        return n_found

    def covered(self, f: FuncInfo, n: ast.Call, par: dict, stack: list) -> Optional[str]:
        stmt = None
        args = list(n.args) + [k.value for k in n.keywords]
        texts = [a.id for a in args if isinstance(a, ast.Name)]
        # the statement is the argument that names the statement parameter of the hook
        hook = self.calls.resolve(f, n)
        ps = [p.arg for p in hook[0].args.args][1:] if hook else []
        for p, a in zip(ps, n.args):
            if p == "statement":
                stmt = a.id if isinstance(a, ast.Name) else None
        for k in n.keywords:
            if k.arg == "statement" and isinstance(k.value, ast.Name):
                stmt = k.value.id
        if stmt is None:
            stmt = texts[-1] if texts else "?"
        why = self.covered_in(f, n, stmt, par)
        if why is None:
            return None
        # argument of a helper that awaits it within a converting try
        p = par.get(id(n))
        if isinstance(p, ast.Call) and (n in p.args or any(k.value is n for k in p.keywords)):
            for t in self.calls.resolve(f, p):
                tp = [x.arg for x in t.args.posonlyargs + t.args.args]
                if t.cls is not None and not t.is_static:
                    tp = tp[1:]
                amap = {q: a for q, a in zip(tp, p.args)}
                amap.update({k.arg: k.value for k in p.keywords if k.arg})
                coro = next((q for q, a in amap.items() if a is n), None)
                inner = next((q for q, a in amap.items() if isinstance(a, ast.Name) and a.id == stmt), "?")
                tpar = self.parents(t)
                aw = [x for x in walk_own(t.node) if isinstance(x, ast.Await) and isinstance(x.value, ast.Name) and x.value.id == coro]
                if aw and all(self.covered_in(t, x, inner, tpar) is None for x in aw):
                    return None
        # a closure or lambda passed on to such a helper, or the callers cover it
        if stack:
            g, call = stack[-1]
            gpar = self.parents(g)
            tp = [x.arg for x in f.args.posonlyargs + f.args.args]
            if f.cls is not None and not f.is_static:
                tp = tp[1:]
            amap = {q: a for q, a in zip(tp, call.args)}
            amap.update({k.arg: k.value for k in call.keywords if k.arg})
            outer = amap.get(stmt)
            w = self.covered_in(g, call, outer.id if isinstance(outer, ast.Name) else "?", gpar)
            if w is None:
                return None
            return w
        return why

    # -- handlers

    def handlers(self) -> None:
        ctx = self.ctx
        for f in self.prog.functions():
            par = None
            for n in walk_own(f.node):
                if isinstance(n, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                    for h in n.handlers:
                        ctx.count("handlers")
                        self.handler(f, n, h)
                    for s in n.finalbody:
                        for x in walk_own_stmt(s):
                            inloop = False
                            if isinstance(x, ast.Return) or (isinstance(x, (ast.Break, ast.Continue)) and not within_loop(n.finalbody, x)):
                                ctx.bad("finally-discards", f.short, f.loc(x), "leaving a `finally` block by return, break or continue discards an error in flight")
                elif isinstance(n, (ast.With, ast.AsyncWith)):
                    for i in n.items:
                        c = i.context_expr
                        if isinstance(c, ast.Call) and last(dotted(c.func) or "") == "suppress":
                            names = [last(dotted(a) or "?") for a in c.args]
                            ok = all(x in LOCAL for x in names) and self.local_body(f, n.body)
                            ctx.check(ok, "no-suppress", f"{f.short}: {', '.join(names)}", f.loc(n), f"errors of type {', '.join(names)} are suppressed")
                elif isinstance(n, ast.Call) and last(dotted(n.func) or "") == "gather":
                    for k in n.keywords:
                        if k.arg == "return_exceptions" and not (isinstance(k.value, ast.Constant) and not k.value.value):
                            ctx.bad("gather-returns-errors", f.short, f.loc(n), "errors of concurrent operations are returned as values")
                elif isinstance(n, ast.Call) and last(dotted(n.func) or "") == "wait" and (self.prog.resolve_expr(f.module, n.func) in ("asyncio.wait", "concurrent.futures.wait")):
                    taken = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "result" for x in walk_own(f.node))
                    ctx.check(taken, "wait-drops-errors", f.short, f.loc(n), "the results of concurrent operations, hence their errors, are never retrieved")
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "exception" and not n.args and not last(dotted(n.func.value) or "").lower().startswith("log"):
                    ctx.check(any(isinstance(x, ast.Raise) for x in walk_own(f.node)), "future-error-raised", f.short, f.loc(n), "the error of a concurrent operation is examined but never raised")
            _ = par
        for c in self.prog.classes():
            for name in ("__exit__", "__aexit__"):
                m = c.methods.get(name)
                if m is None:
                    continue
                ctx.count("exit methods")
                r = ctx.run(m, c, inline=lambda g, recv: False)
                ok = falsy(r.value) or returns_plain_none(m)
                ctx.check(ok, "exit-passes-errors", f"{c.short}.{name}", m.loc(), f"the context exit may return a true value ({show(r.value)[:60]}), which suppresses the error")
        ctx.minimum("handlers", 15)

    def local_body(self, f: FuncInfo, body: list[ast.stmt]) -> bool:
        for s in body:
            for n in walk_own_stmt(s):
                if isinstance(n, (ast.Await, ast.AsyncFor, ast.AsyncWith)):
                    return False
                if isinstance(n, ast.Call):
                    if self.drv.module_call(f, n) or (isinstance(n.func, ast.Attribute) and self.drv.handle(f, n.func.value)):
                        return False
                    if isinstance(n.func, ast.Name) and self.calls.resolve(f, n):
                        return False
                    if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and self.calls.resolve(f, n):
                        return False
        return True

    def handler(self, f: FuncInfo, t: ast.Try, h: ast.ExceptHandler) -> None:
        ctx = self.ctx
        names = [last(n) for n in exc_names(h)]
        ctx.analysed(f)
        key = f"{f.short}: {', '.join(names)}"
        # cause
        for s in h.body:
            for n in walk_own_stmt(s):
                if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call) and self.is_query_exception(f, n.exc):
                    ctx.check(h.name is not None and isinstance(n.cause, ast.Name) and n.cause.id == h.name, "query-error-cause", key, f.loc(n), "the query error does not carry the caught error as its cause")
        if terminates(h.body, self.noreturn(f)):
            ctx.ok("handler-raises", key, f.loc(h))
            return
        if all(n in ITER for n in names):
            ctx.ok("handler-raises", key, f.loc(h), "iterator exhaustion")
            return
        own = f
        while own.parent is not None:
            own = own.parent
        cls = own.cls
        # capability probe
        if cls is not None and cls.is_subclass_of("AnsiExplorer") and names == ["Exception"] and self.is_probe(f, t):
            ctx.count("sanctioned handlers")
            ctx.ok("handler-raises", key, f.loc(h), "capability probe")
            return
        # SSL fallback
        if cls is not None and cls.is_subclass_of("BaseConnection") and all(n in ("ConnectionError", "OperationalError", "InvalidAuthorizationSpecificationError") for n in names):
            # both the attempt and the fallback open a connection
            ctx.count("sanctioned handlers")
            opens = lambda b: any(isinstance(n, ast.Call) for s in b for n in walk_own_stmt(s))
            ctx.check(opens(t.body) and opens(h.body), "handler-raises", key, f.loc(h), "a failure to connect is suppressed without another attempt")
            return
        # optional driver
        if f.module.name.endswith(".factory") and names == ["ModuleNotFoundError"]:
            ctx.count("sanctioned handlers")
            ctx.ok("handler-raises", key, f.loc(h), "absent driver")
            return
        if all(n in LOCAL for n in names) and self.local_body(f, t.body):
            ctx.ok("handler-raises", key, f.loc(h), "lookup in local data")
            return
        ctx.bad("handler-raises", key, f.loc(h), f"an error of type {', '.join(names)} is suppressed: the handler may complete without raising")

    def is_probe(self, f: FuncInfo, t: ast.Try) -> bool:
        "Queries of aggregate functions only, whose outcome is recorded as a truth value."
        awaits = [n for s in t.body for n in walk_own_stmt(s) if isinstance(n, ast.Await)]
        if not awaits:
            return False
        assigned: dict[str, list[ast.AST]] = {}
        for n in walk_own(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and n.value is not None:
                for x in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(x, ast.Name):
                        assigned.setdefault(x.id, []).append(n.value)
            if isinstance(n, (ast.For, ast.AsyncFor)) and isinstance(n.target, ast.Name):
                assigned.setdefault(n.target.id, []).append(n.iter)
        for aw in awaits:
            c = aw.value
            if not isinstance(c, ast.Call):
                return False
            if isinstance(c.func, ast.Attribute) and c.func.attr in ("query_one", "query_all"):
                texts: list[str] = []
                todo: list[ast.AST] = [*c.args, *(k.value for k in c.keywords)]
                seen: set[str] = set()
                while todo:
                    for n in ast.walk(todo.pop()):
                        if isinstance(n, ast.Constant) and isinstance(n.value, str):
                            texts.append(n.value)
                        elif isinstance(n, ast.Name) and n.id not in seen:
                            seen.add(n.id)
                            todo.extend(assigned.get(n.id, []))
                if "COUNT(" not in " ".join(texts).upper():
                    return False
            else:
                ts = self.calls.resolve(f, c)
                if not ts or not all(g.cls is not None and g.cls.is_subclass_of("AnsiExplorer") for g in ts):
                    return False
        return True


def within_loop(stmts: list[ast.stmt], x: ast.AST) -> bool:
    for s in stmts:
        for n in walk_own_stmt(s):
            if isinstance(n, (ast.For, ast.While, ast.AsyncFor)) and any(y is x for y in ast.walk(n)):
                return True
    return False


def falsy(v) -> bool:
    if v.op == "const":
        return not v.args[0]
    if v.op == "phi":
        return falsy(v.args[1]) and falsy(v.args[2])
    if v.op == "bottom":
        return True
    return False


def returns_plain_none(m: FuncInfo) -> bool:
    return not any(isinstance(n, ast.Return) and n.value is not None for n in walk_own(m.node))


def check(ctx: Ctx) -> None:
    r = Rules(ctx)
    r.public()
    r.handlers()
    # the exception stores the statement
    qe = ctx.prog.find_class("QueryException")
    init = qe.find_method("__init__")
    if init is None:
        raise AnalysisError("QueryException has no constructor")
    p = [a.arg for a in init.args.args][1]
    res = ctx.run(init, qe, inline=lambda g, recv: False)
    ev = events(res)
    stored = [e for e in ev if e.op == "setattr" and e.args[1] == "query" and e.args[2].op == "param" and e.args[2].args[0] == p and not e.pc]
    sup = [e for e in ev if e.op == "call" and "__init__" in str(e.args[0]) and any(x.op == "param" and x.args[0] == p for x in walk(e))]
    ctx.check(bool(stored or sup), "query-error-statement", "QueryException", init.loc(), "the statement is not stored in the exception")
    ctx.minimum("hook calls", 3)
