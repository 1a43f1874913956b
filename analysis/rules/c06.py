"""
Ordering analysis of generated scripts. Each operation that puts together a script from the statements of several objects (mutators of
catalogs, namespaces and tables; creation and removal of catalogs, namespaces, tables and composite types; all dialects) is evaluated
symbolically into an ordered sequence of contributions with their enclosing iterations. Contributions are classified by the kind of the
object and the operation. "All A before all B" is decided on the sequence: A precedes B and they share no iteration. Removal of objects
that refer to one another iterates in the reverse of the order of creation. The order of namespaces is decided by following the values
passed to the topological sort: every type and table an object refers to must contribute to the graph.
"""

import re

from ..common import guarded, hierarchy, implied, is_self_attr, method_name, receiver_classes
from ..framework import Ctx, events
from ..program import AnalysisError, ClassInfo, FuncInfo
from ..terms import T, children, neg, show, walk
from . import c03

ASSUMPTIONS = [
    "an object dictionary iterates in the order of insertion, which is the order in which objects may be created",
    "each statement text is executed in the order in which it appears in the script",
    "types and tables that refer to one another across namespaces form no cycle (otherwise the topological sort raises an error)",
]
KIND = {"EnumType": "enum", "StructType": "struct", "Table": "table", "Column": "column", "Namespace": "namespace", "Constraint": "constraint", "Catalog": "catalog"}
CONTRACT = frozenset("""create_stmt drop_stmt soft_drop_stmt hard_drop_stmt drop_if_exists_stmt alter_table_stmt add_constraints_stmt drop_constraints_stmt
create_objects_stmt drop_objects_stmt create_schema_stmt drop_schema_stmt get_referenced_types get_referenced_tables get_referenced_namespaces
create_keys is_alter_table default_constraint_name spec data_spec sort merge get_columns get_value_columns get_primary_column get_constraint
__str__ __init__ name_matches difference intersection values keys items get add remove reorder""".split())
OBJECTS = ("DatabaseObject", "Constraint", "ObjectDict")


def own(g: FuncInfo, recv) -> bool:
    "Helpers that are not part of the objects' interface are evaluated in place."
    if c03.inline(g, recv):
        return True
    if g.cls is not None:
        return any(g.cls.is_subclass_of(o) for o in OBJECTS) and g.name not in CONTRACT
    return g.name in ("join", "join_or_none") or "formation.object_types" in g.module.name and g.name.startswith("_")


class Leaf:
    def __init__(self, label: str, term: T, loops: tuple, pc: tuple, rev: bool) -> None:
        self.label, self.term, self.loops, self.pc, self.rev = label, term, loops, pc, rev


def kind_of(t: T, ctx: Ctx) -> str:
    for c in receiver_classes(t, ctx.prog):
        for k in c.project_mro():
            if k.name in KIND:
                return KIND[k.name]
    return ""


SQL = [("drop constraint", re.compile(r"\bDROP\s+(CONSTRAINT|FOREIGN\s+KEY)\b", re.I)), ("add constraint", re.compile(r"\bADD\s+CONSTRAINT\b", re.I)),
       ("create text", re.compile(r"\bCREATE\s+(TABLE|TYPE|SCHEMA|DATABASE)\b", re.I)), ("drop text", re.compile(r"\bDROP\s+(TABLE|TYPE|SCHEMA)\b", re.I)),
       ("drop column", re.compile(r"\bDROP\s+COLUMN\b", re.I)), ("comment", re.compile(r"\bCOMMENT\s+ON\b", re.I)), ("insert", re.compile(r"\bINSERT\s+INTO\b", re.I))]


def label(t: T, ctx: Ctx) -> list[str]:
    if t.op == "call":
        n = method_name(t)
        if str(t.args[0]).startswith("super:"):
            return [f"super {n}"]
        if t.args[1] is not None:
            k = kind_of(t.args[1], ctx)
            if n in CONTRACT and k:
                return [f"{k} {n}"]
            if n.startswith(("mutate_", "migrate_")):
                return [n]
        return []
    texts = [p for p in t.args if isinstance(p, str)] if t.op == "tmpl" else [t.args[0]] if t.op == "const" and isinstance(t.args[0], str) else []
    out = [l for l, rx in SQL if any(rx.search(s) for s in texts)]
    if t.op == "tmpl" and not out:
        for p in t.args:
            if isinstance(p, T):
                k = kind_of(p, ctx)
                if k in ("enum", "struct", "table"):
                    out.append(f"{k} create_stmt")
    return out


def leaves(t: T, ctx: Ctx, loops: tuple = (), pc: tuple = ()) -> list[Leaf]:
    out: list[Leaf] = []
    if t.op == "phi" or t.op == "if":
        c = t.args[0]
        a, b = ([t.args[1]], [t.args[2]]) if t.op == "phi" else (t.args[1], t.args[2])
        for x in a:
            out += leaves(x, ctx, loops, pc + (c,))
        for x in b:
            out += leaves(x, ctx, loops, pc + (neg(c),))
        return out
    if t.op == "for":
        for x in t.args[2]:
            out += leaves(x, ctx, loops + ((t.args[1], t.args[0]),), pc)
        return out
    if t.op in ("splice", "item", "ornone"):
        return leaves(t.args[0], ctx, loops, pc)
    for l in label(t, ctx):
        out.append(Leaf(l, t, loops, pc, any(reverse(s) for _, s in loops)))
    if t.op == "call" and method_name(t) not in ("alter_table_stmt", "join") and t.args[0] not in ("()",) and t.args[1] is not None and kind_of(t.args[1], ctx):
        return out
    for c in children(t):
        out += leaves(c, ctx, loops, pc)
    return out


def reverse(s: T) -> bool:
    n = 0
    while s.op in ("reversed", "copy", "listof", "tupleof"):
        n += s.op == "reversed"
        s = s.args[0]
    if s.op == "phi":
        return (n % 2 == 1) != (reverse(s.args[1]) and reverse(s.args[2]))
    return n % 2 == 1


def exclusive(a: Leaf, b: Leaf) -> bool:
    bound = {v for v, _ in a.loops + b.loops}
    fa = {c for c in a.pc if not any(x in bound for x in walk(c))}
    return any(neg(c) in fa for c in b.pc)


def match(ls: list[Leaf], spec: str) -> list[int]:
    rx = re.compile(spec)
    return [i for i, l in enumerate(ls) if rx.fullmatch(l.label)]


def order(ctx: Ctx, f: FuncInfo, c: ClassInfo, ls: list[Leaf], chain: list[str], required: bool = True) -> None:
    "Every contribution of a group precedes every contribution of each later group."
    name = f"{c.short}.{f.name}"
    groups = [match(ls, s) for s in chain]
    for s, g in zip(chain, groups):
        if required and not s.startswith("?"):
            ctx.check(bool(g), "contribution", f"{name}: {s}", f.loc(), f"the script has no contribution `{s}`")
    for i, a in enumerate(groups):
        for j in range(i + 1, len(groups)):
            bad = None
            for x in a:
                for y in groups[j]:
                    if x == y or exclusive(ls[x], ls[y]):
                        continue
                    shared = {v for v, _ in ls[x].loops} & {v for v, _ in ls[y].loops}
                    if x > y or shared:
                        bad = (ls[x], ls[y], bool(shared))
            ctx.count("ordered pairs", len(a) * len(groups[j]))
            if bad:
                how = "alternates with" if bad[2] else "comes after"
                ctx.bad("order", f"{name}: {chain[i]} < {chain[j]}", bad[0].term.loc or f.loc(), f"`{bad[0].label}` {how} `{bad[1].label}` ({show(bad[0].term)[:80]} / {show(bad[1].term)[:80]})")
            elif a and groups[j]:
                ctx.ok("order", f"{name}: {chain[i]} < {chain[j]}", f.loc())


def reversed_in(ctx: Ctx, f: FuncInfo, c: ClassInfo, ls: list[Leaf], *labels: str) -> None:
    for l in ls:
        for s in labels:
            if re.fullmatch(s, l.label):
                ok = bool(l.loops) and l.rev
                ctx.check(ok, "reverse-order", f"{c.short}.{f.name}: {l.label}", l.term.loc or f.loc(), f"objects are dropped in the order in which they are created: {show(l.loops[-1][1])[:100] if l.loops else '?'}")


def forward_in(ctx: Ctx, f: FuncInfo, c: ClassInfo, ls: list[Leaf], *labels: str) -> None:
    for l in ls:
        for s in labels:
            if re.fullmatch(s, l.label):
                ctx.check(not l.rev, "creation-order", f"{c.short}.{f.name}: {l.label}", l.term.loc or f.loc(), "objects are created in the reverse of the order of their definition")


def evaluate(ctx: Ctx, c: ClassInfo, f: FuncInfo) -> list[Leaf]:
    r = ctx.run(f, c, inline=own)
    ctx.count("scripts")
    return leaves(r.value, ctx)


def methods(ctx: Ctx, base: str, name: str):
    cs = hierarchy(ctx.prog, base)
    if not any(name in c.methods for c in cs):
        raise AnalysisError(f"{base}.{name} not found")
    for c in cs:
        f = c.methods.get(name)
        if f is not None:
            yield c, f, c is cs[0]


def check(ctx: Ctx) -> None:
    prog = ctx.prog
    for c, f, base in methods(ctx, "Mutator", "mutate_catalog_stmt"):
        ls = evaluate(ctx, c, f)
        order(ctx, f, c, ls, ["namespace create_schema_stmt", "namespace create_objects_stmt", "namespace add_constraints_stmt"], base)
        order(ctx, f, c, ls, ["namespace create_objects_stmt", "mutate_namespace_stmt", "namespace drop_constraints_stmt", "namespace drop_objects_stmt", "namespace drop_schema_stmt"], base)
        reversed_in(ctx, f, c, ls, "namespace drop_objects_stmt")
        forward_in(ctx, f, c, ls, "namespace create_.*")
        sorted_first(ctx, c, f, ls)
        # what a namespace gains, changes and loses is one contribution: with several namespaces, the phases alternate
        for l in ls:
            if l.label == "mutate_namespace_stmt":
                ctx.check(not l.loops, "phases", f"{c.short}.{f.name}: mutate_namespace_stmt", l.term.loc or f.loc(), "existing namespaces are changed one after another: objects of one are dropped before constraints of the next that refer to them, and used before the next creates them")
    for c, f, base in methods(ctx, "Mutator", "mutate_namespace_stmt"):
        ls = evaluate(ctx, c, f)
        order(ctx, f, c, ls, ["enum create_stmt", "struct create_stmt", "table create_stmt", "table add_constraints_stmt"], base)
        order(ctx, f, c, ls, ["enum soft_drop_stmt", "table create_stmt", "migrate_enum_stmt"], base)
        order(ctx, f, c, ls, ["(enum|struct|table) create_stmt", "mutate_.*_stmt", "(enum|struct|table) (hard_)?drop_stmt"], base)
        order(ctx, f, c, ls, ["mutate_enum_stmt", "mutate_struct_stmt", "mutate_table_stmt"], base)
        order(ctx, f, c, ls, ["migrate_enum_stmt", "mutate_table_stmt", "enum (hard_)?drop_stmt"], base)
        order(ctx, f, c, ls, ["drop constraint", "table drop_stmt", "struct drop_stmt", "enum (hard_)?drop_stmt"], base)
        reversed_in(ctx, f, c, ls, "(table|struct) drop_stmt")
        forward_in(ctx, f, c, ls, "(struct|table) create_stmt")
    for c, f, base in methods(ctx, "Mutator", "mutate_table_stmt"):
        ls = evaluate(ctx, c, f)
        ls = [l for l in ls if not (l.label in ("drop constraint", "add constraint") and default_constraint(l.term))]
        order(ctx, f, c, ls, ["drop constraint", "column (hard_)?drop_stmt"], base)
        order(ctx, f, c, ls, ["column soft_drop_stmt", "column create_stmt", "add constraint"], base)
        order(ctx, f, c, ls, ["column create_stmt", "migrate_column_stmt", "column hard_drop_stmt"], base)
        order(ctx, f, c, ls, ["mutate_column_stmt", "add constraint"], base)
        order(ctx, f, c, ls, ["drop constraint", "add constraint"], base)
        order(ctx, f, c, ls, ["super mutate_table_stmt", "comment"], False)
    for base_name in ("Namespace",):
        for c, f, base in methods(ctx, base_name, "create_objects_stmt"):
            ls = evaluate(ctx, c, f)
            order(ctx, f, c, ls, ["enum create_stmt", "struct create_stmt", "table create_stmt"], base)
            forward_in(ctx, f, c, ls, "(struct|table) create_stmt")
        for c, f, base in methods(ctx, base_name, "drop_objects_stmt"):
            ls = evaluate(ctx, c, f)
            order(ctx, f, c, ls, ["table drop_stmt", "struct drop_stmt", "enum drop_stmt"], base)
            reversed_in(ctx, f, c, ls, "(table|struct) drop_stmt")
        for c, f, base in methods(ctx, base_name, "create_stmt"):
            order(ctx, f, c, evaluate(ctx, c, f), ["namespace create_schema_stmt", "namespace create_objects_stmt"], base)
        for c, f, base in methods(ctx, base_name, "drop_stmt"):
            order(ctx, f, c, evaluate(ctx, c, f), ["namespace drop_objects_stmt", "namespace drop_schema_stmt"], base)
    for c, f, base in methods(ctx, "Catalog", "create_stmt"):
        ls = evaluate(ctx, c, f)
        order(ctx, f, c, ls, ["namespace create_schema_stmt", "namespace create_objects_stmt"], base)
        forward_in(ctx, f, c, ls, "namespace create_.*")
        sorted_first(ctx, c, f, ls)
    for c, f, base in methods(ctx, "Catalog", "drop_stmt"):
        ls = evaluate(ctx, c, f)
        order(ctx, f, c, ls, ["namespace drop_objects_stmt", "namespace drop_schema_stmt"], base)
        reversed_in(ctx, f, c, ls, "namespace drop_objects_stmt")
        sorted_first(ctx, c, f, ls)
    for c, f, base in methods(ctx, "Catalog", "__str__"):
        order(ctx, f, c, evaluate(ctx, c, f), ["catalog create_stmt", "catalog add_constraints_stmt"], base)
    for name in ("Table", "StructType", "EnumType", "Namespace"):
        for c, f, base in methods(ctx, name, "create_schema_stmt" if name == "Namespace" else "create_stmt"):
            r = ctx.run(f, c, inline=own)
            ls = [l for l in leaves(r.value, ctx)]
            if name != "Namespace":
                order(ctx, f, c, ls, ["create text|super create_stmt", "comment|insert"], False)
    sorting(ctx)
    collection(ctx)
    generator(ctx)
    ctx.minimum("scripts", 12)
    ctx.minimum("ordered pairs", 30)


def default_constraint(t: T) -> bool:
    "SQL Server keeps the default of a column as a constraint."
    return any(x.op == "call" and method_name(x) == "default_constraint_name" for x in walk(t))


# -- order of namespaces

def sorted_first(ctx: Ctx, c: ClassInfo, f: FuncInfo, ls: list[Leaf]) -> None:
    "The catalogs whose namespaces are visited are sorted before the namespaces are read."
    r = ctx.run(f, c, inline=own)
    roots = set()
    for l in ls:
        for _, s in l.loops:
            for x in walk(s):
                if x.op == "attr" and x.args[1] == "namespaces":
                    roots.add(x.args[0])
    evs = events(r)
    for root in sorted(roots, key=show):
        sorts = [i for i, e in enumerate(evs) if e.op == "call" and method_name(e) == "sort" and e.args[1] == root and not e.pc]
        uses = [i for i, e in enumerate(evs) if e.op == "call" and e.args[1] is not None and any(x.op == "attr" and x.args[1] == "namespaces" and x.args[0] == root for a in (e.args[1], *[v for _, v in e.args[2]]) if isinstance(a, T) for x in walk(a))]
        ok = bool(sorts) and all(i > sorts[0] for i in uses)
        ctx.check(ok, "namespace-order", f"{c.short}.{f.name}: {show(root)}", f.loc(), "namespaces are visited without sorting them first in dependency order")


def sorting(ctx: Ctx) -> None:
    prog = ctx.prog
    for c, f, _ in methods(ctx, "Catalog", "sort"):
        r = ctx.run(f, c, inline=own)
        evs = events(r)
        graph = None
        for e in evs:
            if e.op == "call" and str(e.args[0]).endswith("topological_sort"):
                graph = dict((k, v) for k, v in e.args[2]).get("0") or (e.args[2][0][1] if e.args[2] else None)
        ok = False
        if graph is not None:
            for t, pc in guarded(graph):
                if t.op == "kv" and not [p for p in pc if p.op != "each"]:
                    v = t.args[1]
                    over = [p for p in pc if p.op == "each"]
                    src = over[0].args[0] if over else None
                    whole = src is not None and src.op == "call" and method_name(src) in ("values", "items") and is_self_attr(src.args[1], "namespaces")
                    refs = any(x.op == "call" and method_name(x) == "get_referenced_namespaces" and x.args[1] is not None for x in walk(v))
                    if whole and refs and len(over) == 1:
                        ok = True
        ctx.check(ok, "namespace-order", f"{c.short}.sort: graph", f.loc(), f"the graph that is sorted does not hold the references of each namespace: {show(graph)[:120] if graph is not None else 'no topological sort'}")
        done = [e for e in evs if e.op == "call" and method_name(e) == "reorder" and is_self_attr(e.args[1], "namespaces")]
        ok = False
        for e in done:
            for _, v in e.args[2]:
                if isinstance(v, T) and any(x.op == "call" and str(x.args[0]).endswith("topological_sort") for x in walk(v)) and not any(x.op == "reversed" for x in walk(v)):
                    ok = not e.pc
        ctx.check(ok, "namespace-order", f"{c.short}.sort: reorder", f.loc(), "the namespaces are not put in the sorted order")
    objs = {"structs": ["get_referenced_types"], "tables": ["get_referenced_types", "get_referenced_tables"]}
    for c, f, _ in methods(ctx, "Namespace", "get_referenced_namespaces"):
        r = ctx.run(f, c, inline=own)
        got = set()
        for t, pc in guarded(r.value):
            scopes = [p for p in pc if p.op == "each"]
            others = [p for p in pc if p.op != "each"]
            if not any(x.op == "attr" and x.args[1] == "scope_id" for x in walk(t)):
                continue
            if not all(only_scope(p) for p in others):
                continue
            for i, p in enumerate(scopes):
                for a in objs:
                    for m in objs[a]:
                        srcs = [s.args[0] for s in scopes]
                        if any(from_attr(s, a) for s in srcs) and any(any(x.op == "call" and method_name(x) == m and x.args[1] is not None and x.args[1] in [q.args[1] for q in scopes if from_attr(q.args[0], a)] for x in walk(s)) for s in srcs):
                            got.add((a, m))
        for a in objs:
            for m in objs[a]:
                ctx.check((a, m) in got, "namespace-order", f"{c.short}.get_referenced_namespaces: {a}.{m}", f.loc(), f"what {a} refer to by {m}() is not taken into account")
    for name, attr in (("StructType", "members"), ("Table", "columns")):
        for c, f, _ in methods(ctx, name, "get_referenced_types"):
            r = ctx.run(f, c, inline=lambda g, recv: own(g, recv) or g.cls is None and "formation.object_types" in g.module.name)
            ok = False
            for t, pc in guarded(r.value):
                ty = base_type(t)
                if ty is None:
                    continue
                scopes = [p for p in pc if p.op == "each"]
                others = [p for p in pc if p.op != "each"]
                if len(scopes) == 1 and from_attr(scopes[0].args[0], attr) and all(is_udt(p) for p in others) and any(x == T("attr", (scopes[0].args[1], "data_type")) for x in walk(ty)) \
                        and any(x.op == "attr" and x.args[1] == "element_type" for x in walk(ty)):
                    ok = True
            ctx.check(ok, "namespace-order", f"{c.short}.get_referenced_types", f.loc(), f"not every user-defined type that {attr} refer to, directly or as array elements, is reported")
    for c, f, _ in methods(ctx, "Table", "get_referenced_tables"):
        r = ctx.run(f, c, inline=own)
        got = set()
        for t, pc in guarded(r.value):
            if t.op != "attr" or t.args[1] != "table" or not any(p.op == "each" and from_attr(p.args[0], "constraints") for p in pc):
                continue
            cls = {k for p in pc if p.op != "each" for k in tested(p)}
            if t.args[0].op == "attr" and t.args[0].args[1] == "reference":
                got |= {"ForeignConstraint"} if "ForeignConstraint" in cls or not cls else set()
            else:
                got |= {"DiscriminatedConstraint"} if any(p.op == "each" and p.args[0].op == "attr" and p.args[0].args[1] == "references" for p in pc) else set()
        for k in ("ForeignConstraint", "DiscriminatedConstraint"):
            ctx.check(k in got, "namespace-order", f"{c.short}.get_referenced_tables: {k}", f.loc(), f"tables referenced by {k} are not reported")


def tested(p: T) -> set[str]:
    return {n for n in ("ForeignConstraint", "DiscriminatedConstraint") if p.op != "not" and re.search(rf"isinstance\([^()]*\b{n}\b", show(p))}


def only_scope(p: T) -> bool:
    for a, _ in implied([p]):
        if a.op == "isnone" and a.args[0].op == "attr" and a.args[0].args[1] == "scope_id":
            continue
        if a.op == "attr" and a.args[1] == "scope_id":
            continue
        return False
    return True


def from_attr(s: T, attr: str) -> bool:
    while s.op in ("listof", "tupleof", "setof", "copy", "sorted") and isinstance(s.args[0], T):
        s = s.args[0]
    if s.op == "call" and method_name(s) in ("values", "items"):
        s = s.args[1]
    return is_self_attr(s, attr)


def base_type(t: T):
    if t.op == "attr" and t.args[1] == "ref":
        return t.args[0]
    return None


def is_udt(p: T) -> bool:
    return p.op == "isinstance" or p.op == "not" and p.args[0].op == "isinstance"


# -- objects of a model, in the order of their definition

def collection(ctx: Ctx) -> None:
    prog = ctx.prog
    c = prog.find_class("DataclassConverter")
    f = c.find_method("dataclasses_to_catalog")
    if f is None:
        raise AnalysisError("DataclassConverter.dataclasses_to_catalog not found")
    keep = {"dataclass_to_table", "dataclass_to_struct", "dataclasses_to_catalog", "create_qualified_id", "member_to_sql_data_type", "_enum_table", "simple_type_to_sql_data_type"}
    r = ctx.run(f, c, inline=lambda g, recv: g.cls is not None and g.cls.name == "DataclassConverter" and g.name not in keep)
    # composite types in topological order
    ok = False
    for e in events(r):
        if e.op == "call" and method_name(e) == "dataclass_to_struct":
            src = [p.args[0] for p in e.pc if p.op == "each"]
            ok = any(any(x.op == "call" and str(x.args[0]).endswith("topological_sort") for x in walk(s)) for s in src)
            ctx.check(ok, "struct-order", f.short, e.loc or f.loc(), "composite types are not created in the order of their references")
    # each module that has objects of any kind gives rise to a namespace
    en = lambda e, m: lambda x: x == T("enum", (prog.find_class(e), m))
    need = {"enums": en("EnumMode", "TYPE"), "structs": en("StructMode", "TYPE"), "tables": lambda x: x.op == "call" and method_name(x) == "is_entity_type"}
    for e in events(r):
        if e.op in ("new", "newof") and set(need) <= set(dict(e.args[1])):
            ctx.count("namespace constructions")
            over = [p.args[0] for p in e.pc if p.op == "each"]
            for k, feature in need.items():
                ok = not over or any(feature(x) for s in over for x in walk(s))
                ctx.check(ok, "every-object-in-script", f"{f.short}: {k}", e.loc or f.loc(), f"the namespace of a module that defines {k} only is never created")
    ctx.minimum("namespace constructions", 1)


def generator(ctx: Ctx) -> None:
    "Scripts are produced by the mutator from the tracked state, or include both objects and constraints."
    prog = ctx.prog
    for c, f, _ in methods(ctx, "BaseGenerator", "get_mutate_stmt"):
        r = ctx.run(f, c, inline=lambda g, recv: g.cls is not None and g.cls.is_subclass_of("BaseGenerator") and g.name.startswith("_"))
        ok = any(t.op == "call" and method_name(t) == "mutate_catalog_stmt" for t, _ in guarded(r.value))
        ctx.check(ok, "script-by-mutator", f.short, f.loc(), "the change script is not the mutator's")
    for name in ("create", "drop"):
        for c, f, _ in methods(ctx, "BaseGenerator", name):
            r = ctx.run(f, c, inline=lambda g, recv: g.cls is not None and g.cls.is_subclass_of("BaseGenerator") and g.name not in ("get_mutate_stmt",))
            for v, pc in r.returns:
                for t, tpc in alternatives(v):
                    if t.op == "const" and t.args[0] is None:
                        continue
                    ok = t.op == "call" and (method_name(t) == "get_mutate_stmt" or method_name(t) == "mutate_catalog_stmt" and dict(t.args[2]).get("source") == T("attr", (T("param", ("self",)), "state")))
                    ctx.check(ok, "script-by-mutator", f"{f.short}", t.loc or f.loc(), f"the script is {show(t)[:100]}, not the mutator's ordered script")


def alternatives(v: T):
    if v.op == "phi":
        yield from alternatives(v.args[1])
        yield from alternatives(v.args[2])
    elif v.op == "ornone":
        yield from alternatives(v.args[0])
    else:
        yield v, ()
