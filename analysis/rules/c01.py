"""
Interprocedural demand analysis of SQL text. The statements that reach a connection (arguments of execute and query calls) and the
results of the statement builders are demanded to be SQL. A demand is followed backwards: through templates, joins and collections to
their parts, from a call to the results of the functions it may call, from a parameter to the arguments at its call sites, from an
object to its `__str__`, from a field that holds SQL to what its constructors are given. Text may enter SQL only in the position its
producer quotes it for: an identifier's quoted form or a quoted literal outside any literal, the LIKE escape only inside the literal
of a pattern with that escape character; a plain text (a name, a description, an enumeration value, a row of a catalog query, an
argument of the public interface) that reaches a statement without one of these is the violation, reported where it is embedded.
"""

import ast
import re
from typing import Optional

from ..calls import Calls
from ..common import consts, method_name
from ..framework import Ctx, events
from ..program import AnalysisError, ClassInfo, FuncInfo
from ..terms import T, is_const, show, walk
from ..types import alts, strip_none

ASSUMPTIONS = [
    "the quoting functions are correct for their context (decided by C02)",
    "text of defaults and check conditions read from the catalog of the database is SQL; SQL passed by the user to execute and query is theirs",
    "str() of a number, and of a date, time or timestamp, contains no delimiter",
]
EXECUTE = {"execute", "executemany", "query_one", "query_all", "execute_all", "fetch", "fetchrow", "fetchval", "execute_typed",
           "_execute", "_execute_all", "_query_one", "_query_all", "_execute_typed", "_internal_execute_all", "_internal_execute_typed", "_internal_execute", "copy_expert"}
STATEMENT = ("statement", "stmt", "query", "sql", "operation")
QUOTING = {"quote", "constant", "sql_quoted_string"}
TEXT_FIELDS = {"id", "namespace", "description", "values", "host", "username", "password", "database", "short_description", "comment_text"}
SQL_FIELDS = {("Column", "default"), ("CheckConstraint", "condition")}
CATALOG_SQL = re.compile(r"(default|definition|expression|condition|clause)", re.I)
NUMERIC = {"int", "float", "bool", "decimal.Decimal", "datetime.datetime", "datetime.date", "datetime.time", "uuid.UUID"}
NESTED = re.compile(r"(EXEC\s*\(\s*N?|EXECUTE\s+IMMEDIATE\s+|EXEC\s+sp_executesql\s+N?)$", re.I)


class Demands:
    def __init__(self, ctx: Ctx) -> None:
        self.ctx, self.prog = ctx, ctx.prog
        self.calls = Calls(ctx.prog)
        self.results: dict[FuncInfo, object] = {}
        self.index: dict[str, list[tuple[FuncInfo, T]]] = {}
        self.news: dict[ClassInfo, list[tuple[FuncInfo, T]]] = {}
        self.sets: dict[str, list[tuple[FuncInfo, T]]] = {}
        self.done: set = set()
        self.work: list[tuple] = []
        for f in self.prog.functions():
            if f.parent is not None or f.is_abstract:
                continue
            r = self.run(f)
            for e in events(r):
                if e.op == "call" and isinstance(e.meta, FuncInfo):
                    self.index.setdefault(e.meta.name, []).append((f, e))
                elif e.op == "call":
                    self.index.setdefault(method_name(e), []).append((f, e))
                elif e.op == "newof":
                    for a in alts(strip_none(e.ty)):
                        for k in a.cls.project_mro() if a.cls is not None else []:
                            self.news.setdefault(k, []).append((f, e))
                elif e.op == "new":
                    for k in e.args[0].project_mro() if isinstance(e.args[0], ClassInfo) else []:
                        self.news.setdefault(k, []).append((f, e))
                elif e.op == "setattr":
                    self.sets.setdefault(e.args[1], []).append((f, e))

    def run(self, f: FuncInfo):
        if f not in self.results:
            self.results[f] = self.ctx.run(f, f.cls, inline=collects)
        return self.results[f]

    # reports

    def bad(self, f: FuncInfo, t: T, what: str, why: str) -> None:
        self.ctx.bad(what, f"{f.short}: {label(t)}", t.loc or f.loc(), f"{f.short} embeds `{show(t)[:120]}` {why}")

    def good(self, f: FuncInfo, t: T) -> None:
        self.ctx.count("holes")
        self.ctx.ok("hole", f"{f.short}: {label(t)}", t.loc or f.loc())

    # demands

    def demand(self, *key) -> None:
        if key not in self.done:
            self.done.add(key)
            self.work.append(key)

    def solve(self) -> None:
        while self.work:
            k = self.work.pop()
            if k[0] == "ret":
                self.returned(k[1])
            elif k[0] == "param":
                self.parameter(k[1], k[2])
            elif k[0] == "field":
                self.field(k[1], k[2])

    def returned(self, f: FuncInfo) -> None:
        self.ctx.analysed(f)
        self.ctx.count("functions that produce SQL")
        if f.is_abstract:
            return
        r = self.run(f)
        self.sql(r.value, f, {})
        for y in r.yields:
            self.sql(y.value if hasattr(y, "value") else y, f, {})

    def parameter(self, f: FuncInfo, name: str) -> None:
        self.ctx.count("parameters that carry SQL")
        for g, e in self.index.get(f.name, []):
            if not self.concerns(e, f):
                continue
            for p, a in e.args[2] if e.op == "call" else e.args[1]:
                if p == name:
                    self.sql(a, g, loops(e))

    def concerns(self, e: T, f: FuncInfo) -> bool:
        h = e.meta
        if not isinstance(h, FuncInfo):
            return False
        if h is f:
            return True
        if h.cls is None or f.cls is None:
            return False
        return f.cls.is_subclass_of(h.cls) or h.cls.is_subclass_of(f.cls)

    def field(self, c: ClassInfo, name: str) -> None:
        self.ctx.count("fields that carry SQL")
        for g, e in self.news.get(c, []):
            for p, a in e.args[1]:
                if p == name:
                    self.sql(a, g, loops(e))
        for g, e in self.sets.get(name, []):
            o, v = e.args[0], e.args[2]
            if any(a.cls is not None and (a.cls.is_subclass_of(c) or c.is_subclass_of(a.cls)) for a in alts(strip_none(o.ty))):
                self.sql(v, g, loops(e))

    # terms

    def sql(self, t: T, f: FuncInfo, env: dict) -> None:
        "A complete piece of SQL: starts and ends outside any literal."
        end = self.walk(t, f, env, "raw", "")
        for s in end:
            if s[0] != "raw":
                self.bad(f, t, "unbalanced", "with an unclosed " + ("literal" if s[0] == "lit" else "identifier"))

    def walk(self, t: T, f: FuncInfo, env: dict, state: str, prev: str) -> set[tuple[str, str]]:
        "Returns the states after the text."
        if t.op == "bottom":
            return set()
        if t.op == "const":
            return {scan(str(t.args[0]) if t.args[0] is not None else "", state, prev)}
        if t.op == "tmpl":
            states = {(state, prev)}
            for i, p in enumerate(t.args):
                nxt: set = set()
                for s, pv in states:
                    if isinstance(p, str):
                        nxt.add(scan(p, s, pv))
                    else:
                        rest = t.args[i + 1] if i + 1 < len(t.args) and isinstance(t.args[i + 1], str) else ""
                        nxt |= self.walk(p, f, {**env, "rest": rest}, s, pv)
                states = nxt
            return states
        if t.op == "phi":
            return self.walk(t.args[1], f, env, state, prev) | self.walk(t.args[2], f, env, state, prev)
        if t.op in ("ornone", "copy", "listof", "tupleof", "sorted", "reversed", "setof", "await", "pos", "star"):
            return self.walk(t.args[0], f, env, state, prev)
        if t.op == "fmt":
            if t.args[2] in (-1, 115) and not (isinstance(t.args[1], T) and t.args[1].op != "const"):
                return self.walk(t.args[0], f, env, state, prev)
            self.good(f, t)
            if not numeric(t.args[0]):
                self.bad(f, t, "text", "as SQL in its Python form")
            return {(state, "")}
        if t.op == "or" or t.op == "and":
            parts = t.args[0] if isinstance(t.args[0], tuple) else t.args
            out: set = set()
            for p in parts:
                out |= self.walk(p, f, env, state, prev)
            return out
        if t.op == "join":
            sep = t.args[0] if isinstance(t.args[0], T) else T("const", (t.args[0],))
            seps = self.walk(sep, f, env, state, prev)
            after = self.walk(t.args[1], f, env, state, prev)
            return after | {x for s, p in after for x in self.walk(sep, f, env, s, p)} if any(s != state for s, _ in seps) else after
        if t.op == "seq":
            out = {(state, prev)}
            for i in t.args[1]:
                out |= self.item(i, f, env, state, prev)
            return out
        if t.op == "binop" and t.args[0] == "Add":
            states = {(state, prev)}
            for p in t.args[1:]:
                states = {x for s, pv in states for x in self.walk(p, f, env, s, pv)}
            return states
        if t.op == "binop" and t.args[0] == "Mult":
            for p in t.args[1:]:
                if p.op != "const":
                    self.hole(p, f, env, state, prev)
            return {(state, prev)}
        if t.op == "loopout":
            # accumulated text
            coll, bv, car, start, body = t.args[:5]
            a = self.walk(start, f, env, state, prev)
            inner = {**env, bv: coll, car: None}
            return a | self.walk(body, f, inner, state, prev)
        if t.op == "carried":
            return {(state, prev)}
        self.hole(t, f, env, state, prev)
        return {(state, "")}

    def item(self, i: T, f: FuncInfo, env: dict, state: str, prev: str) -> set:
        if i.op == "item":
            return self.walk(i.args[0], f, env, state, prev)
        if i.op == "splice":
            return self.walk(i.args[0], f, env, state, prev)
        if i.op == "for":
            inner = {**env, i.args[1]: i.args[0]}
            out = set()
            for x in i.args[2]:
                out |= self.item(x, f, inner, state, prev)
            return out
        if i.op == "if":
            out = set()
            for x in tuple(i.args[1]) + tuple(i.args[2]):
                out |= self.item(x, f, env, state, prev)
            return out
        if i.op == "kv":
            return self.walk(i.args[1], f, env, state, prev)
        if i.op == "discard":
            return set()
        self.bad(f, i, "unknown", "whose origin is not understood")
        return {(state, prev)}

    # holes

    def hole(self, t: T, f: FuncInfo, env: dict, state: str, prev: str) -> None:
        self.good(f, t)
        if state == "lit":
            if self.pattern(t, f, env):
                return
            if t.op == "call" and method_name(t) in QUOTING:
                self.bad(f, t, "literal", "inside a literal, though it is a literal itself")
                return
            if numeric(t):
                return
            self.bad(f, t, "literal", "inside a literal without escaping it")
            return
        if state == "ident":
            if t.op == "call" and method_name(t) == "quote_id" or numeric(t):
                return
            self.bad(f, t, "identifier", "inside a quoted identifier without escaping it")
            return
        self.raw(t, f, env, prev)

    def pattern(self, t: T, f: FuncInfo, env: dict) -> bool:
        "The LIKE escape, inside the literal of a pattern whose escape character is the one given."
        if t.op != "call" or method_name(t) != "escape_like" or not isinstance(t.meta, FuncInfo):
            return False
        given = list(t.args[2])[-1][1]
        chars = {m.group(1) for n in ast.walk(f.node) if isinstance(n, ast.Constant) and isinstance(n.value, str) for m in re.finditer(r"ESCAPE\s+'(.)'", n.value)}
        if given.op == "const" and chars and chars != {given.args[0]}:
            self.bad(f, t, "pattern", f"with escape character {given.args[0]!r}, though the pattern is matched with ESCAPE {sorted(chars)}")
        return True

    def raw(self, t: T, f: FuncInfo, env: dict, prev: str) -> None:
        if t in env and env[t] is not None:
            self.elements(env[t], t, f, env, prev)
            return
        if numeric(t):
            return
        known = self.typed(t, f)
        if known:
            return
        if t.op == "call":
            self.call(t, f, env, prev)
            return
        if t.op == "param":
            g: Optional[FuncInfo] = f
            if any(a.arg == t.args[0] for a in arguments(g)):
                if t.args[0] == "self":
                    self.bad(f, t, "object", "which has no text form in SQL")
                    return
                self.demand("param", f, t.args[0])
                return
            self.bad(f, t, "unknown", "whose origin is not understood")
            return
        if t.op == "attr":
            self.attribute(t, f, env)
            return
        if t.op == "new":
            self.bad(f, t, "object", "which has no text form in SQL")
            return
        if t.op in ("strop",):
            # a transformation of a text keeps what it was
            if t.args[0] in ("split", "strip", "lstrip", "rstrip", "removeprefix", "removesuffix", "upper", "lower", "splitlines"):
                self.walk(t.args[1], f, env, "raw", prev)
                return
            self.bad(f, t, "text", "as SQL, though it is text")
            return
        if t.op in ("sub", "elem", "unpack"):
            self.raw_of_container(t, f, env, prev)
            return
        if t.op == "enum":
            self.bad(f, t, "object", "which has no text form in SQL")
            return
        if t.op == "bv":
            self.bad(f, t, "text", "as SQL, though it is an element of a collection of text")
            return
        self.bad(f, t, "text", "as SQL, though it is not known to be SQL")

    def raw_of_container(self, t: T, f: FuncInfo, env: dict, prev: str) -> None:
        base = t.args[0]
        if base.op in ("seq", "param", "call", "attr", "phi"):
            self.walk(base, f, env, "raw", prev)
            return
        self.bad(f, t, "text", "as SQL, though it is text")

    def elements(self, coll: T, bv: T, f: FuncInfo, env: dict, prev: str) -> None:
        "The element of a collection is embedded."
        if numeric(bv):
            return
        if self.typed(bv, f):
            return
        if coll.op == "seq" or coll.op in ("phi", "param", "call", "attr", "copy", "listof", "ornone", "sorted"):
            self.walk(coll, f, env, "raw", prev)
            return
        if coll.op == "const":
            return
        self.bad(f, coll, "text", "as SQL, though its elements are text")

    def typed(self, t: T, f: FuncInfo) -> bool:
        "Decides an object by its `__str__`."
        types = [a for a in alts(strip_none(t.ty))]
        if not types or any(a.cls is None for a in types):
            return False
        for a in types:
            c = a.cls
            if quoted_class(c):
                self.object(t, f)
                continue
            for k in [c] + c.all_subclasses():
                m = k.find_method("__str__")
                if m is None:
                    if k is c and not concrete_below(k):
                        self.bad(f, t, "object", f"of type {k.name}, which has no text form in SQL")
                    continue
                if not quoted_class(k):
                    self.demand("ret", m)
        return True

    def targets(self, t: T, f: FuncInfo) -> list[FuncInfo]:
        "Functions that give the value of a call or of a property."
        if t.op == "call" and isinstance(t.meta, FuncInfo):
            g, recv, name = t.meta, t.args[1], t.meta.name
            if g.cls is None or str(t.args[0]).startswith("super:"):
                return [g]
            classes = [a.cls for a in alts(strip_none(recv.ty)) if a.cls is not None] if isinstance(recv, T) else []
            classes = classes or [g.cls]
            first = [g]
        elif t.op == "attr":
            o, name = t.args[0], t.args[1]
            classes = [f.cls] if o.op == "param" and o.args[0] == "self" and f.cls is not None else [a.cls for a in alts(strip_none(o.ty)) if a.cls is not None]
            first = []
        else:
            return []
        out = list(first)
        for c in classes:
            for k in [c] + c.all_subclasses():
                m = k.find_method(name)
                if m is not None and m not in out and (t.op == "call" or m.is_property):
                    out.append(m)
        return out

    def object(self, t: T, f: FuncInfo) -> None:
        "A value declared to be an identifier is one."
        for g in self.targets(t, f):
            if g.cls is not None and quoted_class(g.cls):
                continue
            if ("object", g) in self.done or g.is_abstract:
                continue
            self.done.add(("object", g))
            for v in leaves(self.run(g).value):
                if v.op in ("tmpl", "join", "strop") or v.op == "const" and isinstance(v.args[0], str):
                    self.ctx.bad("text", f"{g.short}: {label(v)}", v.loc or g.loc(), f"{g.short} gives a text, {show(v)[:80]}, though it is embedded as an identifier")
                elif v.op in ("call", "attr"):
                    self.object(v, g)

    def call(self, t: T, f: FuncInfo, env: dict, prev: str) -> None:
        name = method_name(t)
        if name in QUOTING and (isinstance(t.meta, FuncInfo) and t.meta.cls is None):
            if NESTED.search(prev):
                for _, a in t.args[2]:
                    self.sql(a, f, env)
            return
        if name == "quoted_id":
            return
        if name in ("query_one", "query_all"):
            if not any(CATALOG_SQL.search(x.split("FROM")[0]) for p, a in t.args[2] if p in STATEMENT for x in consts(a)):
                self.bad(f, t, "text", "as SQL, though it is the result of a query")
            return
        if name == "escape_like":
            self.bad(f, t, "literal", "outside a literal")
            return
        if isinstance(t.meta, FuncInfo):
            for m in self.targets(t, f):
                if m.cls is not None and quoted_class(m.cls) and m.name != "quoted_id":
                    self.bad(f, t, "text", "as SQL, though it is a bare name")
                    continue
                self.demand("ret", m)
            return
        args = [a for _, a in t.args[2]]
        if name in ("str", "format") and len(args) == 1 and t.args[1] is None:
            self.walk(args[0], f, env, "raw", prev)
            return
        if name in ("join", "filter", "list", "tuple", "dict", "sorted", "set", "chain", "reversed", "cast", "zip", "islice", "dedent", "iter", "next") and t.args[1] is None:
            for a in args:
                if not (a.op in ("lambda", "closure", "const", "func", "type", "extern", "class")):
                    self.walk(a, f, env, "raw", prev)
            return
        if name in ("split", "splitlines", "partition") and any(";" in x for a in args for x in consts(a)):
            self.ctx.bad("split", f.short, t.loc or f.loc(), f"{f.short} divides a script at `;` wherever it stands, also inside a literal or a quoted identifier, and executes what follows")
        if t.args[0] in ("re.sub", "re.split") and len(args) >= 2:
            self.walk(args[2 if name == "sub" else 1], f, env, "raw", prev)
            return
        if t.args[1] is not None and name in ("values", "split", "strip", "copy", "get", "keys", "items", "splitlines", "pop", "rstrip", "lstrip"):
            self.walk(t.args[1], f, env, "raw", prev)
            return
        self.bad(f, t, "text", "as SQL, though it is text")

    def catalog(self, t: T, f: FuncInfo, env: dict) -> bool:
        "A column of a catalog query that holds an SQL expression."
        src = env.get(t.args[0], t.args[0])
        if not any(x.op == "call" and method_name(x) in ("query_one", "query_all") for x in walk(src)) or not CATALOG_SQL.search(t.args[1]):
            return False
        if "dialect.mysql" in f.module.name:
            self.ctx.bad("catalog", f"dialect.mysql: {t.args[1]}", t.loc or f.loc(), f"{f.short} takes `{show(t)}` as SQL, though the catalog of MySQL gives the bare value of a default, not an expression")
        return True

    def attribute(self, t: T, f: FuncInfo, env: dict) -> None:
        o, name = t.args[0], t.args[1]
        classes = [a.cls for a in alts(strip_none(o.ty)) if a.cls is not None]
        if o.op == "param" and o.args[0] == "self" and f.cls is not None:
            classes = [f.cls]
        if name == "quoted_id":
            return
        if not classes and self.catalog(t, f, env):
            return
        if not classes or any(quoted_class(c) for c in classes):
            self.bad(f, t, "text", "as SQL, though it is " + ("a bare name" if classes else "text"))
            return
        for c in classes:
            m = c.find_method(name)
            if m is not None and m.is_property:
                for k in [c] + c.all_subclasses():
                    h = k.find_method(name)
                    if h is not None:
                        self.demand("ret", h)
                continue
            owner = next((k for k in c.project_mro() if name in k.annots), c)
            if owner.name.endswith("Meta"):
                if not CATALOG_SQL.search(name):
                    self.bad(f, t, "text", "as SQL, though it is a value of a catalog query")
                continue
            if name in TEXT_FIELDS:
                self.bad(f, t, "text", "as SQL, though it is text")
                continue
            self.demand("field", owner, name)


def collects(g: FuncInfo, recv: Optional[T]) -> bool:
    "Functions that add to a collection they are given are followed in place."
    if g.cls is not None and any(isinstance(b, str) and b.split(".")[-1] in ("list", "List", "dict", "set") for k in g.cls.project_mro() for b in k.bases):
        return True
    names = {a.arg for a in arguments(g)} - {"self", "cls"}
    for n in ast.walk(g.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "add") and isinstance(n.func.value, ast.Name) and n.func.value.id in names:
            return True
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in names:
            return True
    return False


def loops(e: T) -> dict:
    "Elements of the loops around an event."
    return {c.args[1]: c.args[0] for c in e.pc if c.op == "each"}


def leaves(t: T) -> list[T]:
    if t.op == "phi":
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def label(t: T) -> str:
    return re.sub(r"\d+", "#", show(t))[:80]


def arguments(f: FuncInfo) -> list:
    a = f.node.args
    return a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])


def numeric(t: T) -> bool:
    types = list(alts(strip_none(t.ty)))
    return bool(types) and all(a.kind == "ext" and a.ref in NUMERIC for a in types)


def quoted_class(c: ClassInfo) -> bool:
    return c.find_method("quoted_id") is not None


def concrete_below(c: ClassInfo) -> bool:
    subs = c.all_subclasses()
    return bool(subs) and all(k.find_method("__str__") is not None for k in subs if not k.all_subclasses())


def scan(text: str, state: str, prev: str) -> tuple[str, str]:
    "Lexical state after constant text."
    out = prev
    for c in text:
        if state == "raw":
            if c == "'":
                state = "lit"
            elif c in '"`':
                state = "ident"
        elif state == "lit" and c == "'":
            state = "raw"
        elif state == "ident" and c in '"`':
            state = "raw"
    return state, (out + text)[-60:]


def check(ctx: Ctx) -> None:
    d = Demands(ctx)
    n = 0
    for f, r in list(d.results.items()):
        if "data" in f.module.name.split(".") or f.cls is not None and f.cls.name in ("QueryException",):
            continue
        for e in events(r):
            if e.op != "call" or method_name(e) not in EXECUTE:
                continue
            args = e.args[2]
            stmt = [a for p, a in args if p in STATEMENT]
            if not stmt and not isinstance(e.meta, FuncInfo) and args and args[0][0] == "0":
                stmt = [args[0][1]]
            if not stmt:
                continue
            n += 1
            for a in stmt:
                d.sql(a, f, loops(e))
        if f.cls is not None and f.cls.is_subclass_of("BaseGenerator") and not f.name.startswith("_") and returns_text(f):
            d.demand("ret", f)
        if f.name.endswith("_stmt") and returns_text(f):
            d.demand("ret", f)
    ctx.count("statements executed", n)
    d.solve()
    ctx.minimum("statements executed", 50)
    ctx.minimum("holes", 200)


def returns_text(f: FuncInfo) -> bool:
    return f.node.returns is not None and re.search(r"\bstr\b", ast.unparse(f.node.returns)) is not None
