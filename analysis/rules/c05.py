"""
Abstract evaluation of each dialect's generator constructor over the finite domains of the conversion modes. For each mode value
not representable in the dialect (table ACCEPT below: what the dialect's types can express), the constructor ends in a
FormationError on every path, and it does so before any other operation can observe the mode; for each mode it does not refuse, and
for the default it falls back to, the mode is one the table lists; the default is accepted when stated explicitly. The exception
raised is a FormationError or derived from it.
"""

from ..common import enum_members, hierarchy, pc_under, value_under
from ..framework import Ctx, events
from ..program import AnalysisError, ClassInfo, FuncInfo
from ..terms import NONE_T, T, show

ASSUMPTIONS = [
    "the table of representable modes: only PostgreSQL has CREATE TYPE for enumerations and composite types (and arrays of them), only MySQL has inline ENUM types, "
    "only Delta has inline STRUCT types, Snowflake and Delta keep enumerations as plain values, array types exist in PostgreSQL, Delta and Trino",
]
ACCEPT = {
    "postgresql": {"enum_mode": {"TYPE", "RELATION", "CHECK"}, "struct_mode": {"TYPE", "JSON"}, "array_mode": {"ARRAY", "JSON", "RELATION"}},
    "redshift": {"enum_mode": {"RELATION", "CHECK"}, "struct_mode": {"JSON"}, "array_mode": {"JSON", "RELATION"}},
    "mysql": {"enum_mode": {"INLINE", "RELATION", "CHECK"}, "struct_mode": {"JSON"}, "array_mode": {"JSON", "RELATION"}},
    "mssql": {"enum_mode": {"RELATION", "CHECK"}, "struct_mode": {"JSON"}, "array_mode": {"JSON", "RELATION"}},
    "oracle": {"enum_mode": {"RELATION", "CHECK"}, "struct_mode": {"JSON"}, "array_mode": {"JSON", "RELATION"}},
    "snowflake": {"enum_mode": {"CHECK"}, "struct_mode": {"JSON"}, "array_mode": {"JSON", "RELATION"}},
    "delta": {"enum_mode": {"CHECK"}, "struct_mode": {"INLINE", "JSON"}, "array_mode": {"ARRAY", "JSON", "RELATION"}},
    "trino": {"enum_mode": {"RELATION", "CHECK"}, "struct_mode": {"JSON"}, "array_mode": {"ARRAY", "JSON", "RELATION"}},
}
ENUMS = {"enum_mode": "EnumMode", "struct_mode": "StructMode", "array_mode": "ArrayMode"}


def dialect_of(c: ClassInfo) -> str:
    p = c.module.name.split(".")
    return p[2] if p[1:2] == ["dialect"] else ""


def generators(ctx: Ctx) -> list[tuple[str, ClassInfo, FuncInfo]]:
    out = []
    for c in hierarchy(ctx.prog, "BaseGenerator"):
        d = dialect_of(c)
        if d and d != "test":
            init = c.find_method("__init__")
            if init is None:
                raise AnalysisError(f"{c.short} has no constructor")
            out.append((d, c, init))
    return out


def inline_ctor(g: FuncInfo, recv) -> bool:
    if g.cls is not None and g.cls.is_subclass_of("BaseGenerator"):
        return True
    return g.cls is None and (g.module.name.endswith(".generator") or g.module.name.endswith("pysqlsync.base"))


def options_param(init: FuncInfo) -> str:
    names = [a.arg for a in init.args.posonlyargs + init.args.args][1:]
    if not names:
        raise AnalysisError(f"{init.short} has no options parameter")
    return names[0]


def mode_term(init: FuncInfo, attr: str) -> T:
    return T("attr", (T("param", (options_param(init),)), attr))


def converter_options(r) -> list[tuple[dict[str, T], tuple]]:
    "Arguments of the converter options that reach the generator's converter, with path conditions."
    out = []
    for e in events(r):
        if e.op == "setattr" and e.args[1] == "converter":
            v = e.args[2]
            if v.op == "new" and v.args[0].name == "DataclassConverter":
                o = dict(v.args[1]).get("options")
                if o is not None and o.op == "new" and o.args[0].name == "DataclassConverterOptions":
                    out.append((dict(o.args[1]), e.pc))
                    continue
            out.append(({}, e.pc))
    return out


def outcome(r, init: FuncInfo, env: dict[T, T]):
    "'refused', 'accepted' or 'undecided' for the assignment of modes."
    verdict = "accepted"
    for o in r.raises:
        ok = pc_under(o.state.pc, env) if hasattr(o.state, "pc") else None
        if ok is True:
            return "refused", o
        if ok is None:
            verdict = "undecided"
    return verdict, None


def check(ctx: Ctx) -> None:
    prog = ctx.prog
    seen = set()
    for d, c, init in generators(ctx):
        if d not in ACCEPT:
            ctx.bad("mode-table", d, c.loc(), "a dialect with no entry in the table of representable modes")
            continue
        seen.add(d)
        ctx.count("generators")
        r = ctx.run(init, c, inline=inline_ctor)
        raises = [e for e in events(r) if e.op == "raise"]
        conv = converter_options(r)
        ctx.check(bool(conv) and all(a for a, _ in conv), "converter-options", c.short, c.loc(), "the converter's options cannot be followed to the constructor")
        for attr, enum in ENUMS.items():
            ec = prog.find_class(enum)
            mt = mode_term(init, attr)
            others = {mode_term(init, o): NONE_T for o in ENUMS if o != attr}
            for m in enum_members(ec):
                ctx.count("mode values")
                env = {**others, mt: T("enum", (ec, m))}
                hit = [e for e in raises if pc_under(e.pc, env) is True]
                maybe = [e for e in raises if pc_under(e.pc, env) is None]
                allowed = m in ACCEPT[d][attr]
                if not allowed:
                    escapes = any(pc_under(o.state.pc, env) is True for o in r.raises)
                    ctx.check(bool(hit) and escapes, "unsupported-mode-refused", f"{c.short}: {enum}.{m}", init.loc(), f"the constructor does not refuse {enum}.{m}, which the dialect cannot represent")
                    for e in hit:
                        x = e.args[0]
                        ctx.check(x.op in ("new",) and x.args[0].is_subclass_of("FormationError"), "refused-by-formation-error", f"{c.short}: {enum}.{m}", e.loc or init.loc(), f"refused with {show(x)[:60]}")
                if not hit:
                    for a, pc in conv:
                        if attr in a and pc_under(pc, env) is not False:
                            v = value_under(a[attr], env)
                            ctx.check(v.op == "enum" and v.args[1] == m, "effective-mode-representable", f"{c.short}: {enum}.{m}", init.loc(), f"the effective mode is {show(v)[:80]}")
            # default
            env = {**others, mt: NONE_T}
            for a, pc in conv:
                if attr not in a:
                    continue
                v = value_under(a[attr], env)
                ok = v.op == "enum"
                ctx.check(ok and v.args[1] in ACCEPT[d][attr], "default-mode-representable", f"{c.short}: {attr}", init.loc(), f"the default {attr} is {show(v)[:80]}")
                if ok:
                    env2 = {**others, mt: v}
                    hit = [e for e in raises if pc_under(e.pc, env2) is not False]
                    ctx.check(not hit, "default-mode-accepted", f"{c.short}: {attr}", init.loc(), f"the default {attr} {v.args[1]} is refused when stated explicitly")
            # no mode at all is never refused
            env0 = {mode_term(init, o): NONE_T for o in ENUMS}
            ctx.check(not [e for e in raises if pc_under(e.pc, env0) is not False], "no-mode-accepted", c.short, init.loc(), "the generator is refused although no mode is stated")
    for d in ACCEPT:
        ctx.check(d in seen, "mode-table", f"dialect {d}", "pysqlsync/dialect", f"no generator found for dialect {d}")
    ctx.minimum("generators", 8)
    ctx.minimum("mode values", 80)
