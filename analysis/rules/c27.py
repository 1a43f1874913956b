"""
Decides that a write that returned successfully has been committed.

* `mode`: each connection class is evaluated up to the connection it stores; on every path that opens one, the connection commits each
  statement by itself: by default (asyncpg, aiotrino), by the keyword `autocommit` with which it is made (aiomysql, pyodbc), or by the
  attribute `autocommit` set on it (oracledb, redshift_connector, pyodbc) - and nothing turns this off again. Otherwise each write has
  to be committed explicitly.
* `write`: each statement or bulk load that an operation of the context sends to the driver is committed on every path that returns
  normally: by the mode of the connection, by a driver's cursor used as a context manager where that commits (pyodbc), or by an explicit
  commit after the last write. Nothing is rolled back on a path that returns normally.
* `transaction`: a transaction that is started is used as a context manager, or committed on every path that returns normally.
"""

from __future__ import annotations

import ast
from typing import Optional

from ..common import hierarchy, method_name, paths, relevant
from ..framework import Ctx, events
from ..program import AnalysisError, ClassInfo, FuncInfo
from ..sqltext import variants
from ..terms import T, is_const, show, walk

ASSUMPTIONS = [
    "asyncpg and aiotrino commit each statement outside of an explicit transaction; aiomysql, pyodbc, oracledb and redshift_connector do so only if `autocommit` is set",
    "a pyodbc cursor used as a context manager commits on normal exit; cursors of other drivers do not",
    "a database commits DDL and DML alike in the mode of the connection",
]

# what a driver does unless told otherwise; how it can be told; whether its cursor or connection commits as a context manager
DRIVERS = {
    "asyncpg": dict(default=True, keyword=None, attribute=False, manager=()),
    "aiotrino": dict(default=True, keyword="isolation_level", attribute=False, manager=()),
    "aiomysql": dict(default=False, keyword="autocommit", attribute=False, manager=()),
    "pymysql": dict(default=False, keyword="autocommit", attribute=False, manager=()),
    "pyodbc": dict(default=False, keyword="autocommit", attribute=True, manager=("cursor", "connection")),
    "oracledb": dict(default=False, keyword=None, attribute=True, manager=()),
    "redshift_connector": dict(default=False, keyword=None, attribute=True, manager=()),
}
CONNECT = ("connect", "create_connection", "connect_async", "create_pool")
WRITES = {"execute", "executemany", "execute_many", "executescript", "copy_records_to_table", "copy_to_table", "copy_from", "copy_expert", "callproc", "callfunc", "bulkcopy", "write_dataframe"}
READS = {"_query_all", "query_all", "query_one", "current_schema"}
COMMITS = {"commit"}
STARTS = {"begin", "start_transaction", "transaction", "tpc_begin"}


def transaction_text(t: T) -> bool:
    "The statement opens a transaction or turns off automatic commit."
    for v in variants(t):
        s = " ".join(v.text().upper().split())
        if s.startswith(("START TRANSACTION", "BEGIN TRANSACTION", "BEGIN TRAN", "BEGIN WORK")) or s.rstrip("; ") == "BEGIN":
            return True
        if "SET AUTOCOMMIT" in s and ("= 0" in s or "=0" in s or "OFF" in s) or "IMPLICIT_TRANSACTIONS ON" in s:
            return True
    return False


def check(ctx: Ctx) -> None:
    prog = ctx.prog
    modes: dict[str, tuple[bool, dict]] = {}
    for c in hierarchy(prog, "BaseConnection"):
        f = c.methods.get("open")
        if f is None or f.is_abstract:
            continue
        context, auto, model = mode(ctx, c, f)
        if context is not None:
            modes[context] = (auto, model)
    ctx.minimum("connections", 6)
    for c in hierarchy(prog, "BaseContext"):
        m = None
        for k in c.project_mro():
            if k.name in modes:
                m = modes[k.name]
                break
        if m is None:
            continue
        for f in c.methods.values():
            if not f.is_abstract and not f.is_overload and not f.name.startswith("__") and not f.is_property:
                operation(ctx, c, f, *m)
    ctx.minimum("driver writes", 12)


def inline_for(c: ClassInfo):
    def policy(g: FuncInfo, recv: Optional[T]) -> bool:
        if g.cls is not None:
            return g.cls in c.project_mro() and g.name.startswith("_") and not g.name.startswith("__")
        return g.module is c.module or g.parent is not None

    return policy


def mode(ctx: Ctx, c: ClassInfo, f: FuncInfo) -> tuple[Optional[str], bool, dict]:
    r = ctx.run(f, c, inline=inline_for(c))
    context: Optional[str] = None
    for v, _ in r.returns:
        for x in walk(v):
            if x.op == "new" and isinstance(x.args[0], ClassInfo) and any(k.name == "BaseContext" for k in x.args[0].project_mro()):
                context = x.args[0].name
    connects = [e for e in events(r) if e.op == "call" and str(e.args[0]).split(".")[-1] in CONNECT and not str(e.args[0]).startswith(".")]
    ctx.count("connections")
    if not connects:
        ctx.notes.append(f"{f.short}: opens no driver connection")
        return context, True, {}
    drivers = {str(e.args[0]).split(".")[0] for e in connects}
    if len(drivers) != 1 or next(iter(drivers)) not in DRIVERS:
        raise AnalysisError(f"{f.short}: unknown database driver {sorted(drivers)}")
    model = DRIVERS[drivers.pop()]
    auto = True
    for o in r.outcomes:
        if o.kind not in ("fall", "return"):
            continue
        keep = lambda e: e.op == "setattr" or e.op == "call" and (e in connects or str(e.args[0]).split(".")[-1] in CONNECT + ("autocommit", "begin"))
        for seq in paths(relevant(o.state.heap[0].args[1], keep)):
            state: dict[T, bool] = {}
            conn: Optional[T] = None
            where = None
            for e, _ in seq:
                if e.op == "call" and not str(e.args[0]).startswith(".") and str(e.args[0]).split(".")[-1] in CONNECT:
                    conn = T(e.op, e.args)
                    where = e.loc
                    on = model["default"]
                    kw = model["keyword"]
                    for k, v in e.args[2]:
                        if kw and k == kw:
                            on = is_const(v, True) if kw == "autocommit" else "AUTOCOMMIT" in show(v).upper()
                    state[conn] = on
                elif e.op == "setattr" and e.args[1] == "autocommit" and model["attribute"]:
                    for k in state:
                        if e.args[0] == k:
                            state[k] = is_const(e.args[2], True)
                elif e.op == "call" and str(e.args[0]) == ".autocommit":
                    for k in state:
                        if e.args[1] == k and e.args[2]:
                            state[k] = is_const(e.args[2][0][1], True)
            if conn is None:
                continue
            ctx.count("paths that open a connection")
            if not state[conn]:
                auto = False
                if not model["manager"]:
                    # reported with the writes, unless these commit by themselves
                    ctx.notes.append(f"{f.short}: {where}: does not commit each statement by itself")
    for e in events(r):
        # the session's settings
        for _, v in e.args[2] if e.op == "call" else ():
            if isinstance(v, T) and (v.op in ("const", "tmpl", "join")) and is_text(v) and transaction_text(v):
                auto = False
                ctx.notes.append(f"{f.short}: {e.loc}: the session does not commit each statement by itself")
    ctx.ok("mode", f"{f.short}: {'each statement commits' if auto else 'writes commit explicitly'}", f.loc())
    return context, auto, model


def is_text(v: T) -> bool:
    return v.op != "const" or isinstance(v.args[0], str)


def managed(ctx: Ctx, f: FuncInfo, e: T) -> bool:
    "The object a transaction is made on is used as a context manager: on the spot, or through a variable."
    line = int(str(e.loc).rsplit(":", 1)[1]) if e.loc else 0
    spans = lambda x: isinstance(x, (ast.Call, ast.Await)) and x.lineno <= line <= (x.end_lineno or x.lineno)
    names: set[str] = set()
    for n in ast.walk(f.module.tree):
        if isinstance(n, ast.Assign) and spans(n.value):
            names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    for n in ast.walk(f.module.tree):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                x = i.context_expr.value if isinstance(i.context_expr, ast.Await) else i.context_expr
                if spans(x) or isinstance(x, ast.Name) and x.id in names and n.lineno > line:
                    return True
    return False


def operation(ctx: Ctx, c: ClassInfo, f: FuncInfo, auto: bool, model: dict) -> None:
    if f.name in READS or not model:
        return
    r = ctx.run(f, c, inline=inline_for(c))
    native = lambda t: isinstance(t, T) and any(x.op == "attr" and str(x.args[1]).startswith("native") for x in walk(t))
    evs = list(events(r))
    writes = [e for e in evs if e.op == "call" and str(e.args[0]).startswith(".") and method_name(e) in WRITES and native(e.args[1])]
    starts = [e for e in evs if e.op == "call" and method_name(e) in STARTS and native(e.args[1]) or e in writes and any(isinstance(v, T) and transaction_text(v) for _, v in e.args[2][:1])]
    off = [e for e in evs if e.op == "setattr" and e.args[1] == "autocommit" and not is_const(e.args[2], True)]
    off += [e for e in evs if e.op == "call" and str(e.args[0]) == ".autocommit" and native(e.args[1]) and not (e.args[2] and is_const(e.args[2][0][1], True))]
    rolls = [e for e in evs if e.op == "call" and method_name(e) == "rollback" and native(e.args[1])]
    commits = [e for e in evs if e.op == "call" and method_name(e) in COMMITS]
    if not writes and not starts and not off and not rolls:
        return
    ctx.count("driver writes", len(writes))
    marks = set(map(key, writes + starts + off + rolls + commits))
    entered = {x.args[0] for e in evs if e.op == "call" for a in [e.args[1]] if isinstance(a, T) for x in walk(a) if x.op == "enter"}

    def self_committing(e: T) -> bool:
        if auto:
            return True
        for x in walk(e.args[1]):
            if x.op == "enter" and isinstance(x.args[0], T):
                if x.args[0].op == "call" and method_name(x.args[0]) == "cursor" and "cursor" in model["manager"]:
                    return True
                if x.args[0].op == "attr" and "connection" in model["manager"]:
                    return True
        return False

    for e in writes:
        ctx.count("writes by their own" if self_committing(e) else "writes to be committed")
    bad: dict[str, tuple[str, str]] = {}
    for o in r.outcomes:
        if o.kind not in ("fall", "return"):
            continue
        for seq in paths(relevant(o.state.heap[0].args[1], lambda e: key(e) in marks)):
            pending: Optional[T] = None
            opened: Optional[T] = None
            for e, _ in seq:
                k = key(e)
                if k in map(key, rolls):
                    if opened is not None or not auto:
                        bad["rollback"] = (e.loc or f.loc(), "changes are rolled back on a path that returns normally")
                elif k in map(key, commits):
                    pending = opened = None
                elif k in map(key, off):
                    opened = e
                elif k in map(key, starts):
                    if not (method_name(e) in STARTS and managed(ctx, f, e)):
                        opened = e
                elif k in map(key, writes):
                    if opened is not None or not self_committing(e):
                        pending = e
            if pending is not None:
                bad["commit"] = (pending.loc or f.loc(), "a statement is not committed on a path that returns normally")
            elif opened is not None:
                bad["open"] = (opened.loc or f.loc(), "a transaction remains open on a path that returns normally")
    ctx.check("commit" not in bad, "write", f"{c.name}.{f.name}: committed", *(bad.get("commit") or (f.loc(), "")))
    ctx.check("rollback" not in bad, "write", f"{c.name}.{f.name}: not rolled back", *(bad.get("rollback") or (f.loc(), "")))
    ctx.check("open" not in bad, "transaction", f"{c.name}.{f.name}: closed", *(bad.get("open") or (f.loc(), "")))


def key(e: T) -> tuple:
    return (e.op, e.loc, str(e.args[0]) if e.op == "call" else str(e.args[1:2]))
