"""
Confinement rule. The text of every catalog query is spelled out and parsed (relations, joins and conditions), and its equalities
are closed over the keys of the catalog views (module `catalog`). For a query of an operation that takes the identifier of a table
or type, some relation confined to that object (both its name and its schema are fixed by the request, or the current schema if
the request names none) determines, through complete keys, the rows of every other relation. For a query of an operation that
takes a namespace (or the current one), the same holds with the schema; in the dialects that put the schema in the table name, the
name is in addition matched against the escaped prefix. No condition compares a requested name with an attribute of another kind
and no join compares attributes of different kinds. Statements executed when a schema is dropped name the objects found in it.
"""

from __future__ import annotations

import ast
from typing import Callable, Optional

from ..catalog import CURRENT, VIEWS, ALIASES, Graph
from ..common import method_name
from ..framework import Ctx, events
from ..program import FuncInfo, dotted
from ..quoting import Hom, Texts, Unknown
from ..queries import DIALECTS, Query, engine_class, queries
from ..select import Select, Unparsed, tokens
from ..sqltext import Hole, variants
from ..terms import T, neg, show, walk
from .c17 import truth

ASSUMPTIONS = [
    "keys and references of the catalog views are those documented by each database; constraint names are unique in a schema except in MySQL, where those of keys are unique in a table only",
    "all views show the catalog (database) connected to; object identifiers in pg_description are not shared between catalogs",
    "an unqualified name is created in, and refers to, the current schema",
]


def param_kinds(f: FuncInfo) -> dict[str, str]:
    "Parameters that identify an object or a name: parameter -> object, local."
    out: dict[str, str] = {}
    g: Optional[FuncInfo] = f
    while g is not None:
        for a in g.args.posonlyargs + g.args.args + g.args.kwonlyargs:
            if a.annotation is None:
                continue
            names = {dotted(n) for n in ast.walk(a.annotation) if isinstance(n, (ast.Name, ast.Attribute))} | {n.value for n in ast.walk(a.annotation) if isinstance(n, ast.Constant)}
            short = {str(n).split(".")[-1] for n in names if n}
            if short & {"SupportsQualifiedId", "QualifiedId", "PrefixedId"}:
                out[a.arg] = "object"
            elif short & {"LocalId", "SupportsLocalId"}:
                out[a.arg] = "local"
        g = g.parent
    return out


def level_of(ctx: Ctx, q: Query) -> Optional[str]:
    kinds = param_kinds(q.f)
    if "object" in kinds.values():
        return "object"
    if "local" in kinds.values() or q.f.name == "get_namespace_current":
        return "schema"
    return None


def peel(t: T) -> T:
    while t.op == "strop" and t.args[0] == "replace":
        t = t.args[1]
    return t


def requests(q: Query) -> Callable[[T], str]:
    kinds = param_kinds(q.f)
    has_object = "object" in kinds.values()

    def request(t: T) -> str:
        t = peel(t)
        if t.op == "attr" and t.args[0].op == "param":
            k = kinds.get(t.args[0].args[0])
            if k == "object":
                return {"scope_id": "schema", "namespace": "schema", "local_id": "table", "id": "table"}.get(t.args[1], "")
            if k == "local" and t.args[1] in ("local_id", "id"):
                return "column" if has_object else "schema"
        return ""

    return request


def is_current(t: T) -> bool:
    return t.op == "call" and method_name(t) == "get_current_schema_stmt"


def graph_of(ctx: Ctx, q: Query, s: Select) -> Graph:
    return Graph(s, requests(q), is_current, unique_names=q.dialect != "mysql")


def none_given(pc: tuple, kinds: dict[str, str]) -> bool:
    "The conditions state that the request names no schema."
    for c in pc:
        x = None
        if c.op == "isnone":
            x = c.args[0]
        elif c.op == "not" and c.args[0].op not in ("isnone", "not"):
            x = c.args[0]
        if x is not None:
            if x.op == "attr" and x.args[1] in ("scope_id", "namespace") and x.args[0].op == "param":
                return True
            if x.op == "param" and kinds.get(x.args[0]) == "local":
                return True
    return False


def prefix_dialects(ctx: Ctx) -> set[str]:
    "Dialects in which the identifiers of objects carry the schema as a prefix."
    out = set()
    for d in DIALECTS:
        c = engine_class(ctx, d, "get_explorer_type")
        f = c.find_method("get_qualified_id") if c else None
        if f is not None:
            v = ctx.run(f, c).value
            if v is not None and v.op == "new" and v.args[0].name == "PrefixedId":
                out.add(d)
    return out


def check(ctx: Ctx) -> None:
    prefixed = prefix_dialects(ctx)
    ctx.notes.append(f"schema as a prefix of the name: {', '.join(sorted(prefixed))}")
    for q in queries(ctx):
        if q.opaque or q.dialect == "*":
            continue
        level = level_of(ctx, q)
        if level is None:
            continue
        ctx.count("queries")
        ctx.analysed(q.f)
        for v in q.variants():
            try:
                s = Select(tokens(v))
            except Unparsed as e:
                ctx.notes.append(f"{q.f.short}: {e}")
                continue
            one(ctx, q, s, v.pc, level, prefixed)
        if q.f.name == "drop_schema":
            dropped(ctx, q, prefixed)
    ctx.minimum("queries", 50)
    ctx.minimum("graphs", 70)
    ctx.minimum("dropped", 3)


def one(ctx: Ctx, q: Query, s: Select, pc: tuple, level: str, prefixed: set[str]) -> None:
    loc = q.event.loc or q.f.loc()
    g = graph_of(ctx, q, s)
    label = f"{q.dialect}: {q.f.short}: {', '.join(dict.fromkeys(r.relation.name for r in g.rels.values() if r.view))}"
    if g.unknown:
        ctx.notes.append(f"{q.f.short}: not modelled: {', '.join(g.unknown)}")
        return
    if not g.rels:
        return
    ctx.count("graphs")
    for rule, why in g.problems:
        ctx.bad(rule, f"{label}: {why}", loc, why)
    kinds = param_kinds(q.f)
    conf = g.confined(level)
    what = "object and its schema" if level == "object" else "schema"
    if not ctx.check(bool(conf), "confined", label, loc, f"no relation of the query is confined to the requested {what}" + (" (if no schema is given)" if none_given(pc, kinds) else "")):
        return
    d = g.driver(level)
    if d is None:
        best = max(sorted(conf), key=lambda u: len(g.determined(u)))
        rest = sorted(set(g.rels) - g.determined(best))
        ctx.bad("join", f"{label}: {', '.join(rest)}", loc, f"rows of {', '.join(rest)} are not matched on a complete key (schema or table, name, position) with the rows confined to the requested {what}")
        return
    ctx.ok("join", label, loc)
    # a reference is followed by all of its attributes
    marks: dict[tuple[str, str], set[str]] = {}
    for a, b in g.equal + [p for w in g.weak.values() for p in w]:
        for x, y in ((a, b), (b, a)):
            if x[0] in g.rels and x[0] != y[0] and y[0] in g.rels and g.domain(x) in ("schema", "nsp", "table", "column", "constraint", "cls"):
                marks.setdefault((x[0], y[0]), set()).add(next((m for m in ("unique_", "r_", "referenced_") if x[1].startswith(m)), ""))
    for (x0, y0), m in marks.items():
        ctx.check(len(m) == 1, "join", f"{label}: {x0}", loc, f"{y0} is joined to {x0} in part by the object, and in part by the object that it refers to")
    # the schema is the requested one, the current schema only if none is requested
    for a, v, weak in g.values:
        if weak or v.kind not in ("schema", "current"):
            continue
        if v.kind == "current":
            ok = q.dialect in prefixed or none_given(pc, kinds) or q.f.name == "get_namespace_current"
            ctx.check(ok, "current", label, loc, "the current schema is searched although the request may name another schema")
        else:
            ctx.check(not none_given(pc, kinds), "current", label, loc, "a schema is searched that the request does not name")
    if level == "schema" and q.dialect in prefixed and not none_given(pc, kinds) and q.f.name != "get_namespace_current":
        ok = False
        for a, v in g.prefixes:
            t = v.token
            if g.domain(a) == "table" and t is not None and len(t.parts) == 2 and isinstance(t.parts[0], Hole) and g.escape:
                ok = g.request(t.parts[0].term) == "schema" and t.parts[1] == f"{g.escape}_{g.escape}_%" and escaped(ctx, t.parts[0].term, g.escape)
        ctx.check(ok, "prefix", label, loc, "tables are not matched against the escaped name of the schema followed by two literal underscores")
    elif level == "schema" and q.dialect in prefixed:
        ok = any(g.domain(a) == "table" and e and t.parts == (f"%{e}_{e}_%",) for a, t, e in g.excluded)
        ctx.check(ok, "prefix", f"{label}: none", loc, "tables that carry the name of a schema are not excluded from the objects without one")
    if "local" in kinds.values() and level == "object":
        ok = any(v.kind == "column" and not weak for _, v, weak in g.values)
        ctx.check(ok, "confined", f"{label}: column", loc, "no relation of the query is confined to the requested column")
    # columns that the system adds to every table are not columns of the object
    for r in g.rels.values():
        if r.view is not None and r.relation.name.endswith("pg_attribute"):
            if level == "object" and r.uid in conf and not any(a[0] == r.uid and a[1] == "attname" for a, v, weak in g.values if not weak) and not driven(g, r.uid):
                ok = any(truth(t, "attnum", 1) is True and truth(t, "attnum", -1) is False and truth(t, "attnum", 0) is False for t, _ in g.filters)
                ctx.check(ok, "confined", f"{label}: {r.uid}: system columns", loc, "system columns are not excluded from the columns of the object")
    # composite keys: the columns of the referencing and of the referenced object come from their own key
    for a, b in g.equal + [p for w in g.weak.values() for p in w]:
        for x, y in ((a, b), (b, a)):
            src = g.rels[y[0]].attrs.get(y[1]) if y[0] in g.rels else None
            if src in ("conkey", "confkey") and x[0] in g.rels and x[1] == "attnum":
                want = "conrelid" if src == "conkey" else "confrelid"
                links = [q2 for p2 in g.equal + [p for w in g.weak.values() for p in w] for q2 in (p2, p2[::-1]) if q2[0] == (x[0], "attrelid")]
                ok = any(z[1] == want or g.find((z[0], z[1])) in {g.find((r.uid, want)) for r in g.rels.values() if r.view and want in r.view.columns} for _, z in links)
                ctx.check(ok, "pair", f"{label}: {x[0]}", loc, f"column numbers of {src} are looked up in a relation other than {want}")


def driven(g: Graph, uid: str) -> bool:
    "The number of the column comes from a key."
    for p in g.equal:
        for x, y in (p, p[::-1]):
            if x == (uid, "attnum") and y[0] in g.rels and (g.rels[y[0]].attrs.get(y[1]) in ("conkey", "confkey")):
                return True
    return False


def escaped(ctx: Ctx, t: T, escape: Optional[str]) -> bool:
    "Wildcards in a text are escaped for LIKE."
    texts = ctx.__dict__.setdefault("_texts", Texts(ctx.prog))
    try:
        for _, pieces in texts.alternatives(t):
            for p in pieces:
                if not isinstance(p, Hom) or any(p.at(c) != f"{escape}{c}" for c in ("%", "_", escape)):
                    return False
    except Unknown:
        return False
    return True


def dropped(ctx: Ctx, q: Query, prefixed: set[str]) -> None:
    "Statements that drop objects found by the query name the objects of the schema."
    for e in events(q.r):
        if e.op != "call" or method_name(e) != "execute":
            continue
        for _, t in e.args[2]:
            for x in walk(t):
                if x.op == "new" and x.args[0].name == "QualifiedId":
                    args = dict(x.args[1])
                    ns = args.get("namespace")
                    if ns is not None and ns.op != "const":
                        ctx.count("dropped")
                        ctx.check(requests(q)(ns) == "schema", "dropped", f"{q.f.short}: qualifier", e.loc or q.f.loc(), f"objects found in the schema are dropped from another: {show(ns)[:60]}")
                    elif q.dialect not in prefixed:
                        ctx.bad("dropped", f"{q.f.short}: qualifier", e.loc or q.f.loc(), "objects found in the schema are dropped from the current schema")
                elif x.op == "new" and x.args[0].name in ("LocalId", "PrefixedId") and q.dialect in prefixed:
                    ctx.count("dropped")
            if any(same(y, q) for y in walk(t)):
                ctx.count("dropped")


def same(t: T, q: Query) -> bool:
    return t.op == "call" and t.args == q.event.args
