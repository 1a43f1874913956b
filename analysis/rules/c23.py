"""
Decides that conversion and SQL generation do not modify shared definitions.

The effects of all functions are computed by an alias analysis (see `effects`): a value is fresh, or is reached from a parameter or from a
module-level object; shallow copies share the contents of their originals; effects of callees are effects of their callers.

* `conversion`: the operations of the converter to SQL and of the discovery of types modify nothing that is reached from their
  parameters, from the options they were given or from a module-level object.
* `annotation`: applying an annotation modifies the type it is applied to and nothing else.
* `generation`: producing SQL text from definitions, and comparing two definitions, modifies none of them; SQL generators modify only
  which state they stand for. The one exception is the order of namespaces in a catalog.
* `merge`: merging objects into another collection modifies nothing in the objects merged, and what is stored shares nothing with them.
* `ordering`: only namespaces of a catalog are ever reordered in place.
"""

from __future__ import annotations

import ast

from ..common import hierarchy
from ..effects import Effects, Summary
from ..framework import Ctx
from ..interp import Interp
from ..program import AnalysisError, FuncInfo
from ..types import STR, strip_none

ASSUMPTIONS = [
    "functions of other packages do not modify their arguments, except those of containers and of drivers",
    "functions are not passed to other packages in order to modify definitions",
]
CONVERTER = {
    "create_qualified_id", "create_qualified_prefix", "create_foreign_key_name", "create_discriminated_key_name", "create_unique_key_name", "create_check_name",
    "simple_type_to_sql_data_type", "member_to_sql_data_type", "member_to_column", "dataclass_to_table", "create_check_constraint", "dataclass_to_constraints",
    "member_to_field", "dataclass_to_struct", "dataclasses_to_catalog", "modules_to_catalog",
}
DISCOVERY = {"sql_data_type_from_name", "sql_data_type_from_def", "sql_data_type_from_spec"}
CHANGING = {"add", "remove", "sort", "reorder", "merge", "__init__", "__post_init__", "append", "extend", "__setitem__", "__setattr__", "__iadd__"}
ORDER = {"_items"}


def check(ctx: Ctx) -> None:
    eff = Effects(ctx.prog)
    if eff.rounds >= 12:
        raise AnalysisError("effects do not converge")
    ctx.count("functions", len(eff.funcs))
    ctx.count("rounds", eff.rounds)
    for f in eff.funcs:
        ctx.analysed(f)
    conversion(ctx, eff)
    annotation(ctx, eff)
    generation(ctx, eff)
    merge(ctx, eff)
    ordering(ctx, eff)


def where(eff: Effects, f: FuncInfo, key: tuple) -> tuple[str, str]:
    "The statement that modifies an object, and the calls that lead to it."
    path, node = trail(eff, f, key)
    g = path[-1]
    return f"{g.loc().rsplit(':', 1)[0]}:{getattr(node, 'lineno', 0)}", f"`{ast.unparse(node)[:100]}` in " + " <- ".join(x.short for x in reversed(path))


def trail(eff: Effects, f: FuncInfo, key: tuple) -> tuple[list[FuncInfo], ast.AST]:
    path, node = [f], eff.summary(f).effects[key]
    seen = set()
    while key in eff.summary(f).via and (id(f.node), key) not in seen:
        seen.add((id(f.node), key))
        f, key = eff.summary(f).via[key]
        if key not in eff.summary(f).effects:
            break
        node = eff.summary(f).effects[key]
        path.append(f)
    return path, node


def origin(o: tuple) -> str:
    if o[0] == "G":
        return f"the module-level object {o[1]}"
    if o[0] == "p":
        return o[1]
    return f"{o[1]}.{o[2]}" if o[2] not in ("*", "[]") else f"what is in {o[1]}"


def quiet(ctx: Ctx, eff: Effects, rule: str, f: FuncInfo, allowed) -> None:
    s: Summary = eff.summary(f)
    bad = [k for k in s.effects if not allowed(*k) and not passed(ctx, f, k[0]) and not (k[0] == ("d", "self", "converter") and converts(eff, f, k))]
    if not bad:
        ctx.ok(rule, f.short, f.loc())
    for k in sorted(bad, key=str):
        loc, text = where(eff, f, k)
        ctx.bad(rule, f"{f.short}: {origin(k[0])}", loc, f"{origin(k[0])} is modified ({k[1]}): {text}")


def passed(ctx: Ctx, f: FuncInfo, o: tuple) -> bool:
    "A collection of texts that the caller has the function fill; what a helper does to its parameters is an effect of its callers."
    if o[0] != "p" or o[1] in ("self", "cls"):
        return False
    if f.name.startswith("_") and not f.name.startswith("__"):
        return True
    ty = strip_none(Interp(ctx.prog, ctx.tr).param_type(f, o[1]))
    return ty.kind == "cls" and ctx.tr.elem(ty) == STR or ty.is_ext("list", "set") and bool(ty.args) and strip_none(ty.args[0]) == STR


def converts(eff: Effects, f: FuncInfo, key: tuple) -> bool:
    "What a converter records of its work: operations of converters are examined on their own."
    c = trail(eff, f, key)[0][-1].cls
    return c is not None and c.is_subclass_of("DataclassConverter")


def roots(ctx: Ctx, base: str, names: set[str]) -> list[FuncInfo]:
    out = []
    for c in hierarchy(ctx.prog, base):
        for n, f in sorted(c.methods.items()):
            if n in names:
                out.append(f)
    return out


def conversion(ctx: Ctx, eff: Effects) -> None:
    fs = roots(ctx, "DataclassConverter", CONVERTER) + roots(ctx, "SqlDiscovery", DISCOVERY)
    for f in fs:
        # an object's own records of what it did, such as a cache, are not shared definitions
        quiet(ctx, eff, "conversion", f, lambda o, what: o[0] == "d" and o[1] == "self" and o[2] not in ("options", "*") or o == ("p", "self") and what != "options")
        ctx.count("conversions", 1)
    ctx.minimum("conversions", 17)
    for f in roots(ctx, "DataclassConverter", {"__init__"}) + roots(ctx, "SqlDiscovery", {"__init__"}):
        quiet(ctx, eff, "conversion", f, lambda o, what: o == ("p", "self"))


def annotation(ctx: Ctx, eff: Effects) -> None:
    for c in hierarchy(ctx.prog, "SqlDataType"):
        for n, f in sorted(c.methods.items()):
            if n in ("__init__", "__post_init__"):
                continue
            ctx.count("type methods", 1)
            if n == "parse_meta":
                quiet(ctx, eff, "annotation", f, lambda o, what: o == ("p", "self"))
            else:
                quiet(ctx, eff, "annotation", f, lambda o, what: False)
    ctx.minimum("type methods", 30)


def generation(ctx: Ctx, eff: Effects) -> None:
    for base in ("DatabaseObject", "Namespace", "Catalog", "Column", "StructMember", "Constraint", "EnumType"):
        for c in hierarchy(ctx.prog, base):
            for n, f in sorted(c.methods.items()):
                if n in CHANGING:
                    continue
                ctx.count("definition methods", 1)
                quiet(ctx, eff, "generation", f, lambda o, what: o == ("d", "self", "namespaces") and what in ORDER and c.is_subclass_of("Catalog"))
    ctx.minimum("definition methods", 80)
    for c in hierarchy(ctx.prog, "Mutator"):
        for n, f in sorted(c.methods.items()):
            if n == "__init__":
                continue
            ctx.count("mutator methods", 1)
            quiet(ctx, eff, "generation", f, lambda o, what: n == "mutate_catalog_stmt" and o[0] == "d" and o[1] in ("source", "target") and o[2] == "namespaces" and what in ORDER)
    ctx.minimum("mutator methods", 15)
    for c in hierarchy(ctx.prog, "BaseGenerator"):
        for n, f in sorted(c.methods.items()):
            ctx.count("generator methods", 1)
            if n == "__init__":
                quiet(ctx, eff, "generation", f, lambda o, what: o == ("p", "self"))
            else:
                quiet(ctx, eff, "generation", f, lambda o, what: o == ("p", "self") or o in (("d", "self", "state"), ("d", "target", "namespaces")) and what in ORDER)
    ctx.minimum("generator methods", 30)
    for c in hierarchy(ctx.prog, "BaseContext"):
        for n, f in sorted(c.methods.items()):
            if any(a.arg == "table" for a in f.args.args):
                ctx.count("context methods", 1)
                quiet(ctx, eff, "generation", f, lambda o, what: o[0] in ("p", "d") and o[1] != "table")
    ctx.minimum("context methods", 5)


def merge(ctx: Ctx, eff: Effects) -> None:
    for base in ("Namespace", "Catalog"):
        for c in hierarchy(ctx.prog, base):
            f = c.methods.get("merge")
            if f is None:
                continue
            ctx.count("merges", 1)
            op = f.args.args[1].arg
            quiet(ctx, eff, "merge", f, lambda o, what: o[0] in ("p", "d") and o[1] == "self")
            shared = [(k, n) for k, n in eff.summary(f).stores.items() if k[1][0] in ("p", "d") and k[1][1] == op]
            ctx.check(not shared, "merge", f"{f.short}: stored", f"{f.loc().rsplit(':', 1)[0]}:{shared[0][1].lineno}" if shared else f.loc(), f"{origin(shared[0][0][0])} holds objects of {op}" if shared else "")
    ctx.minimum("merges", 2)


def ordering(ctx: Ctx, eff: Effects) -> None:
    c = ctx.prog.find_class("ObjectDict")
    for n in ("sort", "reorder"):
        f = c.find_method(n)
        if f is None:
            continue
        for g, e, recv in eff.log.get(id(f.node), {}).values():
            ctx.count("reorderings", 1)
            ty = strip_none(recv.ty) if recv is not None else None
            item = ty.args[0] if ty is not None and ty.kind == "cls" and ty.args else None
            ok = item is not None and item.kind == "cls" and item.ref.is_subclass_of("Namespace") or recv is not None and recv.s == frozenset([("F",)])
            ctx.check(ok, "ordering", f"{g.short}: {ast.unparse(e.func)}", f"{g.loc().rsplit(':', 1)[0]}:{e.lineno}", f"`{ast.unparse(e)}` changes the order of objects other than namespaces")
