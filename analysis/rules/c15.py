"""
Decides that the connection password goes to the database driver only.

Taint analysis over the whole program. Sources: the attribute `password` of connection parameters or of a parsed URL, a URL that is
parsed for one (including the parameters through which it arrives), and forms of the parameters object that include every field
(`asdict`, `vars`, `__dict__`). Taint passes through string operations, templates, collections, helper functions (inlined, or followed
by marking the parameter, the result or the attribute concerned, to a fixpoint).

* `sink`: no tainted value reaches a logging call, an exception, output, or the execution of a statement.
* `form`: no `__str__`, `__repr__` or `__format__` (and no text made by the parameters object) is tainted; printing a data class with a
  password field leaves the field out.
* `field`: a password is stored in no field of the connection parameters other than `password`.
"""

from __future__ import annotations

import ast
import sys
from typing import Iterator, Optional

from ..calls import Calls
from ..common import receiver_classes
from ..framework import Ctx, events
from ..program import ClassInfo, FuncInfo, dotted, walk_own
from ..terms import T, show

ASSUMPTIONS = [
    "drivers do not disclose the password they are given",
    "calls of packages other than the standard library and the project itself are calls of a driver",
]

LOGGING = {"debug", "info", "warning", "error", "exception", "critical", "log", "warn"}
OUTPUT = {"print", "write", "writelines", "warn", "showwarning"}
SQL = {"execute", "executemany", "execute_all", "executescript", "query_one", "query_all", "fetch", "fetchrow", "fetchval", "prepare", "_execute", "_query_all"}
NEUTRAL = {"len", "isinstance", "bool", "type", "id", "hash", "callable", "issubclass", "hasattr"}
SAFE_PARTS = {"scheme", "hostname", "port", "username", "path", "query", "params", "fragment", "host", "database", "ssl"}
WHOLE = {"vars", "asdict", "astuple", "dataclasses.asdict", "dataclasses.astuple"}
FORMS = {"__str__", "__repr__", "__format__", "__rich_repr__"}
PROJECT = {"strong_typing", "truststore", "certifi", "typing_extensions"}


class Taint:
    def __init__(self, ctx: Ctx) -> None:
        self.ctx = ctx
        self.prog = ctx.prog
        self.holders = {c for m in self.prog.modules.values() for c in m.classes.values() if "password" in c.annots}
        self.attrs: set[str] = set()
        self.results: set[FuncInfo] = set()
        self.params: dict[FuncInfo, set[str]] = {}
        self.changed = False
        self.calls = Calls(self.prog)
        self.memo: dict[T, bool] = {}

    def holder(self, t: T) -> bool:
        "An object with a password field."
        return any(k in self.holders for c in receiver_classes(t, self.prog) for k in c.project_mro()) or t.op == "new" and isinstance(t.args[0], ClassInfo) and t.args[0] in self.holders

    def driver(self, name: str) -> bool:
        top = name.split(".")[0]
        return "." in name and not name.startswith(".") and top not in sys.stdlib_module_names and top not in PROJECT and top not in self.prog.modules and top != "pysqlsync"

    def tainted(self, t: object, f: FuncInfo) -> bool:
        if isinstance(t, tuple):
            return any(self.tainted(x, f) for x in t)
        if not isinstance(t, T):
            return False
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = False
        r = self._tainted(t, f)
        self.memo[t] = r
        return r

    def _tainted(self, t: T, f: FuncInfo) -> bool:
        op = t.op
        if op == "param":
            return t.args[0] in self.params.get(f, ())
        if op in ("const", "extern", "class", "func", "method", "global", "enum", "isnone", "cmp", "in", "not", "and", "or", "len", "exists", "pos", "each", "bv", "carried"):
            return op in ("and", "or") and t.ty.kind != "ext" and any(self.tainted(x, f) for x in t.args)
        if op == "attr":
            base, name = t.args[0], t.args[1]
            if name == "password":
                return True
            if name == "__dict__" and self.holder(base):
                return True
            if name in self.attrs:
                return True
            if name in SAFE_PARTS:
                return False
            return self.tainted(base, f)
        if op == "phi":
            return self.tainted(t.args[1], f) or self.tainted(t.args[2], f)
        if op == "closure":
            return False
        if op == "new":
            c = t.args[0]
            if isinstance(c, ClassInfo) and c in self.holders:
                return False
            return any(self.tainted(v, f) for _, v in t.args[1])
        if op == "call":
            name = str(t.args[0])
            last = name.split(".")[-1]
            if self.driver(name) or last in NEUTRAL:
                return False
            args = [v for _, v in t.args[2]]
            if last in ("asdict", "astuple", "vars", "fields_of") or name in WHOLE:
                if any(isinstance(a, T) and self.holder(a) for a in args):
                    return True
            if last == "getattr" and args and isinstance(args[0], T) and self.holder(args[0]) and not (len(args) > 1 and isinstance(args[1], T) and args[1].op == "const" and args[1].args[0] != "password"):
                return True
            if last in ("urlparse", "urlsplit", "urllib.parse.urlparse"):
                return True
            if isinstance(t.meta, FuncInfo) and t.meta in self.results:
                return True
            if isinstance(t.meta, FuncInfo):
                return False  # what a project function returns is decided by analysing it
            return any(self.tainted(x, f) for x in args) or isinstance(t.args[1], T) and self.tainted(t.args[1], f)
        if op == "for":
            return self.tainted(t.args[2], f) or self.tainted(t.args[0], f) and self.uses(t.args[2], t.args[1])
        if op == "if":
            return self.tainted(t.args[1], f) or self.tainted(t.args[2], f)
        return any(self.tainted(a, f) for a in t.args)

    def uses(self, items: object, bv: T) -> bool:
        from ..terms import walk

        return any(x == bv for i in items for x in walk(i))

    # -- marks

    def mark(self, s: set, x) -> None:
        if x not in s:
            s.add(x)
            self.changed = True

    def mark_param(self, g: FuncInfo, p: str) -> None:
        s = self.params.setdefault(g, set())
        if p not in s:
            s.add(p)
            self.changed = True

    def implementations(self, g: FuncInfo) -> list[FuncInfo]:
        if g.cls is None:
            return [g]
        out = [g]
        for c in g.cls.all_subclasses():
            m = c.methods.get(g.name)
            if m is not None:
                out.append(m)
        return out


def functions(ctx: Ctx) -> Iterator[FuncInfo]:
    for m in ctx.prog.modules.values():
        for f in m.functions.values():
            yield f
        for c in m.classes.values():
            for f in c.methods.values():
                yield f


def candidates(ctx: Ctx, t: Taint) -> list[FuncInfo]:
    out = []
    results = {g.name for g in t.results}
    for f in functions(ctx):
        names = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                names.add(n.attr)
            elif isinstance(n, ast.Name):
                names.add(n.id)
            elif isinstance(n, ast.keyword) and n.arg:
                names.add(n.arg)
        holder = f.cls is not None and any(k in t.holders for k in f.cls.project_mro())
        if holder or f in t.params or names & ({"password", "params", "parameters", "urlparse", "urlsplit", "asdict", "astuple", "vars", "__dict__"} | {c.name for c in t.holders} | t.attrs | results):
            if not f.is_overload:
                out.append(f)
    return out


def check(ctx: Ctx) -> None:
    t = Taint(ctx)
    ctx.check(bool(t.holders), "form", "connection parameters", "pysqlsync/connection.py", "no class has a password field")
    runs: dict[FuncInfo, object] = {}
    problems: dict[tuple[str, str], tuple[str, str]] = {}
    for _ in range(8):
        t.changed = False
        t.memo = {}
        problems.clear()
        for f in candidates(ctx, t):
            if f not in runs:
                runs[f] = ctx.run(f, f.cls, inline=policy(f))
            t.memo = {}
            scan(ctx, t, f, runs[f], problems)
        if not t.changed:
            break
    fs = candidates(ctx, t)
    for f in fs:
        ctx.analysed(f)
        bad = [(k, v) for k, v in problems.items() if v[2] is f]
        if not bad:
            ctx.ok("sink", f.short, f.loc())
        for (rule, construct), (loc, msg, _) in bad:
            ctx.bad(rule, construct, loc, msg)
    ctx.count("functions that handle parameters", len(fs))
    ctx.minimum("functions that handle parameters", 10)
    ctx.count("events examined", sum(len(list(events(r))) for r in runs.values()))
    ctx.notes.append(f"attributes that hold a password: {sorted(t.attrs | {'password'})}")
    ctx.notes.append(f"functions that return one: {sorted(g.short for g in t.results)}")
    ctx.notes.append(f"parameters that carry one: {sorted((g.short, p) for g, ps in t.params.items() for p in ps)}")
    for c in t.holders:
        printed(ctx, c, "password")
    for m in ctx.prog.modules.values():
        for c in m.classes.values():
            for a in sorted(t.attrs & set(c.annots)):
                printed(ctx, c, a)


def policy(f: FuncInfo):
    def inline(g: FuncInfo, recv: Optional[T]) -> bool:
        if g.parent is not None:
            return True
        if g.cls is not None:
            return f.cls is not None and g.cls in f.cls.project_mro() and g.name.startswith("_") and not g.name.startswith("__") and g.name not in SQL
        return g.name.startswith("_")

    return inline


def scan(ctx: Ctx, t: Taint, f: FuncInfo, r, problems: dict) -> None:
    def problem(rule: str, what: str, loc: Optional[str], msg: str) -> None:
        problems.setdefault((rule, f"{f.short}: {what}"), (loc or f.loc(), msg, f))

    for e in events(r):
        if e.op == "raise":
            if t.tainted(e.args[0], f):
                problem("sink", "exception", e.loc, f"the password is part of an exception: {show(e.args[0])[:120]}")
        elif e.op == "setattr":
            if t.tainted(e.args[2], f):
                if e.args[1] == "password":
                    continue
                if t.holder(e.args[0]):
                    problem("field", f"field {e.args[1]}", e.loc, f"the password is stored in the field {e.args[1]} of the connection parameters")
                else:
                    t.mark(t.attrs, e.args[1])
        elif e.op == "new":
            c = e.args[0]
            for name, v in e.args[1]:
                if not t.tainted(v, f):
                    continue
                if c in t.holders:
                    if name != "password":
                        problem("field", f"field {name}", e.loc, f"the password is stored in the field {name} of the connection parameters")
                elif exception(c):
                    problem("sink", "exception", e.loc, f"the password is part of an exception: {show(v)[:120]}")
                else:
                    m = c.find_method("__init__")
                    if m is not None:
                        t.mark_param(m, name)
                    elif name in c.annots:
                        t.mark(t.attrs, name)
        elif e.op == "call":
            name = str(e.args[0])
            last = name.split(".")[-1]
            args = [(k, v) for k, v in e.args[2] if t.tainted(v, f)]
            if isinstance(e.meta, FuncInfo) and e.meta in t.params or last in ("urlparse", "urlsplit"):
                for k, v in e.args[2]:
                    wanted = last in ("urlparse", "urlsplit") and k in ("0", "url") or isinstance(e.meta, FuncInfo) and k in t.params.get(e.meta, ())
                    if wanted and isinstance(v, T) and v.op == "param" and "url" in str(v.args[0]).lower() + str(k).lower():
                        t.mark_param(f, v.args[0])
            if not args or t.driver(name) or last in NEUTRAL:
                continue
            if last in LOGGING and (name.startswith(".") or name.startswith("logging")):
                problem("sink", "log", e.loc, f"the password is logged: {show(args[0][1])[:120]}")
            elif last in OUTPUT:
                problem("sink", "output", e.loc, f"the password is printed or written: {show(args[0][1])[:120]}")
            elif last in SQL:
                problem("sink", "statement", e.loc, f"the password is part of a statement: {show(args[0][1])[:120]}")
            elif last.endswith(("Error", "Exception", "Warning")):
                problem("sink", "exception", e.loc, f"the password is part of an exception: {show(args[0][1])[:120]}")
            elif isinstance(e.meta, FuncInfo):
                for g in t.implementations(e.meta):
                    for k, _ in args:
                        t.mark_param(g, k)
    out = [v for v, _ in r.returns] + list(r.yields)
    if any(t.tainted(v, f) for v in out):
        if f.name in FORMS or f.cls is not None and f.cls in t.holders and text(f):
            problem("form", f"{f.name}", f.loc(), "the text form includes the password")
        else:
            for g in {f} | ({f.cls.find_method(f.name)} if f.cls is not None else set()):
                t.mark(t.results, g)
            if f.cls is not None:
                for k in f.cls.project_mro():
                    if f.name in k.methods:
                        t.mark(t.results, k.methods[f.name])


def text(f: FuncInfo) -> bool:
    r = getattr(f.node, "returns", None)
    return r is None or "str" in ast.unparse(r)


def exception(c) -> bool:
    return isinstance(c, ClassInfo) and any(str(b).split(".")[-1].endswith(("Error", "Exception", "Warning")) for b in c.mro() if not isinstance(b, ClassInfo))


def is_false(e: Optional[ast.expr]) -> bool:
    return isinstance(e, ast.Constant) and e.value is False


def printed(ctx: Ctx, c: ClassInfo, name: str) -> None:
    "What a data class prints of its fields."
    ctx.count("classes that hold a password")
    construct = f"{c.short}: {name}"
    loc = f"{c.module.relpath if hasattr(c.module, 'relpath') else c.module.name}:{c.node.lineno}"
    f = c.methods.get("__repr__")
    if f is not None:
        ctx.ok("form", f"{construct}: printed", f.loc())
        return
    data = None
    for d in c.node.decorator_list:
        if (dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1] == "dataclass":
            data = d
    tuple_like = any(str(b).split(".")[-1] in ("NamedTuple", "TypedDict") for b in c.mro() if not isinstance(b, ClassInfo))
    if tuple_like:
        ctx.bad("form", f"{construct}: printed", loc, "the printed form of a tuple includes every field")
        return
    if data is None:
        ctx.ok("form", f"{construct}: printed", loc)
        return
    if isinstance(data, ast.Call) and any(k.arg == "repr" and is_false(k.value) for k in data.keywords):
        ctx.ok("form", f"{construct}: printed", loc)
        return
    v = c.values.get(name)
    hidden = isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] == "field" and any(k.arg == "repr" and is_false(k.value) for k in v.keywords)
    hidden = hidden or "InitVar" in ast.unparse(c.annots[name])
    ctx.check(hidden, "form", f"{construct}: printed", loc, "the generated `__repr__` of the data class includes the password")
