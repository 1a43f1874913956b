"""
Path-condition analysis of change scripts. (1) Each public operation of every mutator (base and dialects) is evaluated
symbolically, private helpers inlined; each call of a drop operation on an enumeration, composite type, table or namespace that
contributes to the returned script (or, where the contribution cannot be followed, each such call), and each text with DROP
TYPE / TABLE / SCHEMA, must be under a condition that implies the permission of that kind of object, read from the mutator's
options. Dropping the constraints of a namespace to be removed is treated as part of dropping it. (2) No function other than
the drop operations themselves produces such a text: none is reachable in the call graph from synchronization, the generator or
the create/alter operations without passing a mutator operation checked in (1). (3) Each generator builds its mutator from the
synchronization options it is given, each mutator keeps the options it is given, and no code overwrites a permission.
"""

import ast
import re

from ..calls import Calls
from ..common import guarded, hierarchy, implied, is_self_attr, method_name, receiver_classes
from ..framework import Ctx, events
from ..program import AnalysisError, FuncInfo, walk_own
from ..terms import T, show, walk

ASSUMPTIONS = [
    "objects of a dialect's factory classes derive from the base classes of formation/object_types.py",
]
KINDS = {"EnumType": "enum", "StructType": "struct", "Table": "table", "Namespace": "namespace", "Catalog": "namespace"}
DROPPERS = {"drop_stmt", "hard_drop_stmt", "drop_if_exists_stmt", "drop_objects_stmt", "drop_schema_stmt"}
CONTRACT = {"mutate_catalog_stmt", "mutate_namespace_stmt", "mutate_table_stmt", "mutate_column_stmt", "mutate_struct_stmt",
            "mutate_enum_stmt", "migrate_enum_stmt", "migrate_column_stmt", "is_column_migrated", "check_identity"}
TEXT = re.compile(r"\bDROP\s+(TYPE|TABLE|SCHEMA|DATABASE|NAMESPACE)\b", re.I)
TEXT_KIND = {"TABLE": {"table"}, "TYPE": {"enum", "struct"}, "SCHEMA": {"namespace"}, "DATABASE": {"namespace"}, "NAMESPACE": {"namespace"}}


def kinds_of(recv: T, ctx: Ctx) -> set[str]:
    out = set()
    for c in receiver_classes(recv, ctx.prog):
        for k in c.project_mro():
            if k.name in KINDS:
                out.add(KINDS[k.name])
                break
    return out


def inline(g: FuncInfo, recv) -> bool:
    if g.cls is not None and g.cls.is_subclass_of("Mutator"):
        return g.name not in CONTRACT
    if g.cls is not None and g.cls.name == "StatementList":
        return True
    return g.cls is None and ("mutation" in g.module.name or g.name in ("join", "join_or_none"))


def permitted(pc: tuple, kind: str) -> bool:
    return any(pol and is_self_attr(a, "options", f"allow_drop_{kind}") for a, pol in implied(pc))


def check(ctx: Ctx) -> None:
    prog = ctx.prog
    for c in hierarchy(prog, "Mutator"):
        for name in sorted(CONTRACT):
            f = c.methods.get(name)
            if f is None:
                continue
            r = ctx.run(f, c, inline=inline)
            inval: set[T] = set()
            sites: list[tuple[T, tuple]] = []
            for t, pc in guarded(r.value):
                if t.op in ("call", "tmpl", "const"):
                    inval.add(t)
                    sites.append((t, pc))
            names = {(method_name(t), t.loc) for t in inval if t.op == "call"}
            for e in events(r):
                if e.op == "call" and (method_name(e), e.loc) not in names:
                    sites.append((e, e.pc))
            for t, pc in sites:
                site(ctx, c, f, t, pc)
    ctx.minimum("drop sites", 6)
    reach(ctx)
    # the permission examined is the one the user has set
    from . import c04
    for d, c, init in c04.generators(ctx):
        c04.mutator(ctx, c, init, ctx.run(init, c, inline=c04.inline_ctor))
    c04.keep(ctx, [(c.name, "options", "options") for c in hierarchy(prog, "Mutator")])
    c04.untouched(ctx)


def site(ctx: Ctx, c, f: FuncInfo, t: T, pc: tuple) -> None:
    if t.op == "call" and t.args[1] is not None:
        name = method_name(t)
        recv = t.args[1]
        if name in DROPPERS or name == "drop_constraints_stmt":
            kinds = kinds_of(recv, ctx)
            if name == "drop_constraints_stmt":
                kinds &= {"namespace"}
            if not kinds and name in DROPPERS:
                if any(k.is_subclass_of("Column") for k in receiver_classes(recv, ctx.prog)):
                    return
                ctx.bad("drop-permission", f"{f.short}: {name} of an object of unknown kind", t.loc or f.loc(), f"{show(recv)[:80]}.{name}()")
                return
            for k in sorted(kinds):
                ctx.count("drop sites")
                ctx.check(permitted(pc, k), "drop-permission", f"{f.short}: {k}.{name}", t.loc or f.loc(), f"{name}() of a {k} contributes to the change script without options.allow_drop_{k} being enabled")
        return
    if t.op == "tmpl":
        texts = [p for p in t.args if isinstance(p, str)]
    elif t.op == "const" and isinstance(t.args[0], str):
        texts = [t.args[0]]
    else:
        return
    for s in texts:
        for m in TEXT.finditer(s):
            ctx.count("drop sites")
            ks = TEXT_KIND[m.group(1).upper()]
            ctx.check(any(permitted(pc, k) for k in ks), "drop-permission", f"{f.short}: text {m.group(0)}", t.loc or f.loc(), f"`{m.group(0)}` is emitted without the permission {' or '.join('options.allow_drop_' + k for k in sorted(ks))}")


def has_text(f: FuncInfo) -> bool:
    doc = f.node.body[0].value if isinstance(getattr(f.node, "body", None), list) and f.node.body and isinstance(f.node.body[0], ast.Expr) else None
    return any(isinstance(n, ast.Constant) and n is not doc and isinstance(n.value, str) and TEXT.search(n.value) for n in walk_own(f.node))


def reach(ctx: Ctx) -> None:
    prog = ctx.prog
    calls = Calls(prog)
    bases = {"EnumType", "StructType", "Table", "Namespace", "Catalog", "Constraint"}
    roots: list[FuncInfo] = []
    for f in prog.functions():
        if f.parent is not None or f.cls is None:
            continue
        if f.name in ("synchronize", "get_mutate_stmt", "create") and (f.cls.is_subclass_of("Explorer") or f.cls.is_subclass_of("BaseGenerator")):
            roots.append(f)
        elif f.cls.is_subclass_of("DatabaseObject") or any(f.cls.is_subclass_of(b) for b in bases):
            if not is_drop(f):
                roots.append(f)
    ctx.count("reachability roots", len(roots))
    ctx.minimum("reachability roots", 40)
    for root in roots:
        seen = {id(root.node)}
        work = [(root, root.short)]
        while work:
            f, path = work.pop()
            ctx.analysed(f)
            if has_text(f):
                ctx.bad("drop-only-through-mutator", f"{root.short}: {f.short}", f.loc(), f"a DROP statement is produced outside the drop operations: {path}")
            for n in walk_own(f.node):
                if isinstance(n, ast.Call):
                    ts = calls.resolve(f, n)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    ts = [g for g in calls.resolve_callee(f, n) if g.is_property]
                else:
                    continue
                for g in ts:
                    if id(g.node) in seen or (g.cls is not None and g.cls.is_subclass_of("Mutator")):
                        continue
                    seen.add(id(g.node))
                    if is_drop(g):
                        if g.cls.is_subclass_of("Column"):
                            continue
                        # resolution by name alone: the receiver may be a column
                        ctx.bad("drop-only-through-mutator", f"{root.short}: {g.short}", f.loc(n), f"a drop operation is reached without passing the mutator: {path} -> {g.short}")
                        continue
                    if g.module.name.split(".")[-1] in ("connection",) or (g.cls is not None and (g.cls.is_subclass_of("BaseContext") or g.cls.is_subclass_of("BaseConnection"))):
                        continue
                    work.append((g, f"{path} -> {g.short}"))
        ctx.ok("drop-only-through-mutator", root.short, root.loc())


def is_drop(f: FuncInfo) -> bool:
    if f.cls is not None and (f.cls.is_subclass_of("BaseContext") or f.cls.is_subclass_of("BaseGenerator")):
        return f.name == "drop" or f.name.startswith("drop_")
    return f.cls is not None and (f.name in DROPPERS or f.name.startswith("_drop") or f.name in ("drop_constraints_stmt", "drop_schema", "drop_table_if_exists"))
