"""
Value-flow analysis from the options of a generator to the components that act on them. (1) Each dialect's generator constructor is
evaluated with its base constructors inlined: the arguments of the converter's options are compared with the attributes of the
generator's options (a mode the user states must be the effective mode for every mode value; namespaces, foreign constraints,
initialization, skipped annotations, automatic defaults are the user's value), and the generator's mutator must be built from the
synchronization options. (2) The engine's factory methods pass the options they are given, and the constructors of the converter, the
mutator and the namespace mapping store them. (3) In the converter each construct that belongs to a mode or a switch (inline
enumeration, user-defined type, lookup table, CHECK constraint, inline structure, array, JSON, join table, foreign constraint,
initialized lookup table, automatic default, annotation) is created only on paths whose conditions exclude every other setting, and
on some path that the setting permits. Lambdas used as predicates are resolved.
"""

import ast

from ..common import enum_members, guarded, hierarchy, implied, is_self_attr, method_name, pc_under, truth_under, value_under
from ..framework import Ctx, events
from ..program import AnalysisError, ClassInfo, FuncInfo, dotted, walk_own
from ..terms import FALSE, NONE_T, TRUE, T, show, walk
from .c05 import ACCEPT, ENUMS, converter_options, generators, inline_ctor, mode_term, options_param

ASSUMPTIONS = [
    "third-party inspection functions (strong_typing) classify types as their names say",
    "that each operation of the mutator observes the synchronization options is decided by C03",
]
NO_FOREIGN = {"redshift", "snowflake", "delta"}
DIRECT = {"initialize_tables": "initialize_tables", "skip_annotations": "skip_annotations", "auto_default": "auto_default"}
CONTRACT = {"simple_type_to_sql_data_type", "member_to_sql_data_type", "member_to_column", "dataclass_to_table", "create_check_constraint",
            "member_to_field", "dataclass_to_struct", "dataclasses_to_catalog", "modules_to_catalog",
            "create_qualified_id", "create_qualified_prefix", "create_foreign_key_name", "create_discriminated_key_name",
            "create_unique_key_name", "create_check_name", "_get_relationship", "_enum_table"}


def peel(t: T) -> T:
    while t.op in ("copy", "deepcopy", "ornone") and t.args and isinstance(t.args[0], T):
        t = t.args[0]
    return t


def check(ctx: Ctx) -> None:
    constructors(ctx)
    engine(ctx)
    storage(ctx)
    untouched(ctx)
    converter(ctx)
    ctx.minimum("generators", 8)
    ctx.minimum("mode sites", 14)


# -- (1) generator constructors

def constructors(ctx: Ctx) -> None:
    prog = ctx.prog
    for d, c, init in generators(ctx):
        if d not in ACCEPT:
            continue
        ctx.count("generators")
        r = ctx.run(init, c, inline=inline_ctor)
        op = T("param", (options_param(init),))
        conv = converter_options(r)
        ctx.check(bool(conv) and all(a for a, _ in conv), "converter-options", c.short, c.loc(), "the converter's options cannot be followed to the constructor")
        raises = [e for e in events(r) if e.op == "raise"]
        for a, pc in conv:
            if not a:
                continue
            for attr, enum in ENUMS.items():
                ec = prog.find_class(enum)
                mt = mode_term(init, attr)
                others = {mode_term(init, o): NONE_T for o in ENUMS if o != attr}
                for m in enum_members(ec):
                    if m not in ACCEPT[d][attr]:
                        continue
                    # other modes may take any value: leave them symbolic unless the outcome depends on them
                    env = {mt: T("enum", (ec, m))}
                    if pc_under(pc, {**others, **env}) is False:
                        continue
                    v = value_under(a.get(attr, NONE_T), env)
                    ctx.check(v.op == "enum" and v.args == (ec, m), "stated-mode-effective", f"{c.short}: {enum}.{m}", init.loc(), f"with {attr}={m} the converter gets {show(v)[:80]}")
            for name, target in DIRECT.items():
                v = a.get(target)
                ctx.check(v is not None and peel(v) == T("attr", (op, name)), "option-reaches-converter", f"{c.short}: {name}", init.loc(), f"the converter gets {show(v)[:80] if v is not None else 'its default'} instead of options.{name}")
            fc = a.get("foreign_constraints")
            ok = fc is not None and (peel(fc) == T("attr", (op, "foreign_constraints")) or (d in NO_FOREIGN and fc == FALSE))
            ctx.check(ok, "option-reaches-converter", f"{c.short}: foreign_constraints", init.loc(), f"the converter gets {show(fc)[:80] if fc is not None else 'its default'} instead of options.foreign_constraints")
            ns = a.get("namespaces")
            want = T("attr", (op, "namespaces"))
            ok = ns is not None and ns.op == "new" and ns.args[0].name == "NamespaceMapping" and peel(dict(ns.args[1]).get("dictionary", NONE_T)) == want
            ctx.check(ok, "option-reaches-converter", f"{c.short}: namespaces", init.loc(), f"the namespace mapping is {show(ns)[:80] if ns is not None else 'its default'} instead of one of options.namespaces")
        mutator(ctx, c, init, r)
        opts = [e for e in events(r) if e.op == "setattr" and e.args[1] == "options" and e.args[0] == T("param", ("self",))]
        ctx.check(bool(opts) and all(peel(e.args[2]) == op for e in opts), "option-stored", f"{c.short}.options", init.loc(), "the generator does not keep the options it is given")
        # options must not be modified on the way
        for e in events(r):
            if e.op == "setattr" and any(x == op for x in walk(e.args[0])):
                ctx.bad("option-reaches-converter", f"{c.short}: {e.args[1]}", e.loc or init.loc(), "the options are modified by the constructor")


def mutator(ctx: Ctx, c, init, r) -> None:
    "The generator creates its mutator from the synchronization options it is given."
    op = T("param", (options_param(init),))
    muts = [e for e in events(r) if e.op == "setattr" and e.args[1] == "mutator" and e.args[0] == T("param", ("self",))]
    ctx.check(bool(muts), "option-reaches-mutator", c.short, init.loc(), "no mutator is assigned")
    for e in muts:
        for v, pc in guarded(e.args[2]):
            if v.op == "phi" or pc_under(e.pc + pc, {}) is False or not top_level(v, e.args[2]):
                continue
            ok = v.op == "new" and v.args[0].is_subclass_of("Mutator") and peel(dict(v.args[1]).get("options", NONE_T)) == T("attr", (op, "synchronization"))
            ctx.check(ok, "option-reaches-mutator", c.short, e.loc or init.loc(), f"the mutator is {show(v)[:100]} instead of one built from options.synchronization")


def untouched(ctx: Ctx) -> None:
    "The settings of the user are not overwritten anywhere."
    prog = ctx.prog
    fields = set()
    for n in ("MutatorOptions", "GeneratorOptions", "DataclassConverterOptions"):
        fields |= set(prog.find_class(n).annots)
    for f in prog.functions():
        if f.cls is not None and f.name in ("__init__", "__post_init__") and "Options" in f.cls.name:
            continue
        for n in walk_own(f.node):
            for t in n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []:
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in fields:
                        owner = dotted(x.value) or ""
                        if x.attr.startswith("allow_drop_") or owner.split(".")[-1].endswith(("options", "opts")):
                            ctx.bad("option-overwritten", f"{f.short}: {x.attr}", f.loc(x), f"{ast.unparse(x)} is overwritten, whatever the user has set")
            if isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] == "replace" and any((k.arg or "") in fields and k.arg.startswith("allow_drop_") for k in n.keywords):
                ctx.bad("option-overwritten", f"{f.short}: replace", f.loc(n), "a permission is replaced, whatever the user has set")
        ctx.count("functions examined for overwritten options")


def top_level(v: T, root: T) -> bool:
    "Whether v is one of the alternatives of root."
    if v == root:
        return True
    return root.op == "phi" and (top_level(v, root.args[1]) or top_level(v, root.args[2]))


# -- (2) engine and storage

def engine(ctx: Ctx) -> None:
    prog = ctx.prog
    base = prog.find_class("BaseEngine")
    for c in hierarchy(prog, "BaseEngine"):
        for name, attr in (("create_generator", "get_generator_type"), ("create_connection", "get_connection_type")):
            f = c.methods.get(name)
            if f is None:
                continue
            opt = next((a.arg for a in f.args.args + f.args.kwonlyargs if a.arg == "options"), None)
            if opt is None:
                raise AnalysisError(f"{f.short} has no parameter options")
            op = T("param", (opt,))
            env = {T("isnone", (op,)): FALSE}
            r = ctx.run(f, c, inline=lambda g, recv: g.cls is not None and g.cls.is_subclass_of("BaseEngine") and g.name in ("create_generator",) or g.name.startswith("_"))
            ok = False
            for t, pc in guarded(r.value):
                if t.op in ("newof", "new", "call") and len(t.args) >= 2:
                    args = t.args[1] if t.op in ("newof", "new") else t.args[2]
                    for _, v in args:
                        if not isinstance(v, T):
                            continue
                        for alt, apc in guarded(v):
                            if alt == op and pc_not_false(pc + apc, op):
                                ok = True
                        # the value must be the options whenever they are given
                        if any(x == op for x in walk(v)) and v.op == "phi":
                            w = value_given(v, op)
                            ctx.check(w == op, "engine-passes-options", f.short, f.loc(), f"passes {show(w)[:80]}")
            ctx.check(ok, "engine-passes-options", f"{f.short}", f.loc(), "the options given do not reach the generator")
    ctx.count("engine factory methods", len([1 for n in ("create_generator", "create_connection") if n in base.methods]))
    ctx.minimum("engine factory methods", 2)


def value_given(v: T, op: T) -> T:
    "Value when the options are given (not None, true)."
    if v.op == "phi":
        b = truth_under(v.args[0], {op: TRUE, T("isnone", (op,)): FALSE})
        if b is None:
            return T("phi", (v.args[0], value_given(v.args[1], op), value_given(v.args[2], op)), v.ty)
        return value_given(v.args[1 if b else 2], op)
    if v.op == "ornone":
        return value_given(v.args[0], op)
    return v


def pc_not_false(pc: tuple, op: T) -> bool:
    for a, pol in implied(pc):
        if a == T("isnone", (op,)) and pol:
            return False
        if a == op and not pol:
            return False
    return True


def storage(ctx: Ctx) -> None:
    prog = ctx.prog
    keep(ctx, [("DataclassConverter", "options", "options"), ("NamespaceMapping", "dictionary", "dictionary")])
    keep(ctx, [(c.name, "options", "options") for c in hierarchy(prog, "Mutator")])


def keep(ctx: Ctx, todo: list) -> None:
    prog = ctx.prog
    for name, param, attr in todo:
        c = prog.find_class(name)
        init = c.find_method("__init__")
        if init is None:
            raise AnalysisError(f"{c.short} has no constructor")
        r = ctx.run(init, c, inline=lambda g, recv: g.name == "__init__" or g.name.startswith("_"))
        op = T("param", (param,))
        sets = [e for e in events(r) if e.op == "setattr" and e.args[0] == T("param", ("self",)) and e.args[1] == attr]
        ok = bool(sets)
        for e in sets:
            given = not any((a == T("isnone", (op,)) and pol) or (a == op and not pol) for a, pol in implied(e.pc))
            if given:
                ok = ok and peel(value_given(e.args[2], op)) in (op, T("dictof", (op,)))
        ok = ok and any(not any((a == T("isnone", (op,)) and pol) or (a == op and not pol) for a, pol in implied(e.pc)) for e in sets)
        ctx.check(ok, "option-stored", f"{c.short}.{attr}", init.loc(), f"the constructor does not keep `{param}`")


# -- (3) converter

def opt(name: str) -> T:
    return T("attr", (T("attr", (T("param", ("self",)), "options")), name))


def inline_conv(g: FuncInfo, recv) -> bool:
    if g.cls is not None and g.cls.name == "DataclassConverter":
        return g.name not in CONTRACT
    return False


def mentions(pc: tuple, *names: str) -> set[str]:
    "Functions named in conditions or sources, including bodies of lambdas and local functions."
    out: set[str] = set()
    for c in pc:
        for x in walk(c):
            if x.op == "call":
                out.add(method_name(x))
            elif x.op in ("extern", "func", "global"):
                n = x.args[0]
                out.add(n.name if isinstance(n, FuncInfo) else str(n).split(".")[-1])
            elif x.op in ("closure", "lambda") and isinstance(x.args[0], FuncInfo):
                for n in ast.walk(x.args[0].node):
                    if isinstance(n, ast.Name):
                        out.add(n.id)
                    elif isinstance(n, ast.Attribute):
                        out.add(n.attr)
    return out & set(names)


def facts(pc: tuple, name: str) -> bool:
    "A call of the function is known to be true."
    return any(pol and a.op == "call" and method_name(a) == name for a, pol in implied(pc))


def sites(ctx: Ctx, r) -> list[tuple[T, tuple]]:
    out: list[tuple[T, tuple]] = []
    locs = set()
    for v, base in r.returns:
        for t, pc in guarded(v, base):
            if t.op not in ("call", "new", "newof", "seq", "tup"):
                continue
            out.append((t, pc))
            if t.op != "seq" and t.loc:
                locs.add((t.op, t.loc))
    for e in events(r):
        if e.op in ("call", "new", "newof") and (e.op, e.loc) not in locs:
            out.append((e, e.pc))
    return out


def converter(ctx: Ctx) -> None:
    prog = ctx.prog
    c = prog.find_class("DataclassConverter")
    seen: dict[tuple[str, str], bool] = {}
    every = [(a, e) for a, e in ENUMS.items()]

    def only(f: FuncInfo, what: str, t: T, pc: tuple, attr: str, modes: set[str]) -> None:
        ctx.count("mode sites")
        ec = prog.find_class(ENUMS[attr])
        for m in enum_members(ec):
            v = pc_under(pc, {opt(attr): T("enum", (ec, m))})
            if m not in modes:
                ctx.check(v is False, "mode-exclusive", f"{f.short}: {what} under {attr} {m}", t.loc or f.loc(), f"{what} is created on a path that does not exclude {attr} {m}")
            elif v is not False:
                seen[(what, m)] = True

    def need(f: FuncInfo, what: str, modes: set[str]) -> None:
        for m in sorted(modes):
            ctx.check(seen.get((what, m), False), "mode-effective", f"{f.short}: {what} under {m}", f.loc(), f"no path creates {what} under {m}")

    # scalar types
    f = c.find_method("simple_type_to_sql_data_type")
    r = ctx.run(f, c, inline=inline_conv)
    parse = 0
    for t, pc in sites(ctx, r):
        if t.op == "new" and t.args[0].name == "SqlEnumType":
            only(f, "inline enumeration type", t, pc, "enum_mode", {"INLINE"})
        elif t.op == "new" and t.args[0].name == "SqlUserDefinedType" and not any(x.op == "new" and x.args[0].name == "GlobalId" for _, x in t.args[1]):
            only(f, "enumeration type name", t, pc, "enum_mode", {"TYPE"})
        elif t.op == "call" and method_name(t) == f.name:
            arg = dict(t.args[2]).get("typ")
            if arg is not None and any(method_name(x) == "enum_value_type" for x in walk(arg)):
                only(f, "enumeration value type", t, pc, "enum_mode", {"CHECK"})
            elif arg is not None and arg.op in ("extern", "global") and str(arg.args[0]).endswith("int32"):
                only(f, "enumeration key type", t, pc, "enum_mode", {"RELATION"})
    for e in events(r):
        if e.op == "call" and method_name(e) == "parse_meta":
            parse += 1
            ok = any(not pol and a.op == "isinstance" and any(x == opt("skip_annotations") for x in walk(a)) for a, pol in implied(e.pc))
            ctx.check(ok, "skip-annotations", f.short, e.loc or f.loc(), "an annotation is applied without testing options.skip_annotations")
    ctx.check(parse > 0, "skip-annotations", f"{f.short}: annotations", f.loc(), "no annotation is applied")
    need(f, "inline enumeration type", {"INLINE"})
    need(f, "enumeration type name", {"TYPE"})
    need(f, "enumeration value type", {"CHECK"})
    need(f, "enumeration key type", {"RELATION"})

    # composite types and lists
    f = c.find_method("member_to_sql_data_type")
    r = ctx.run(f, c, inline=inline_conv)
    for t, pc in sites(ctx, r):
        struct = facts(pc, "is_dataclass_type")
        if t.op == "new" and t.args[0].name == "SqlStructType":
            only(f, "inline structure", t, pc, "struct_mode", {"INLINE"})
        elif t.op == "new" and t.args[0].name == "SqlUserDefinedType" and struct:
            only(f, "structure type name", t, pc, "struct_mode", {"TYPE"})
        elif t.op == "new" and t.args[0].name == "SqlArrayType":
            only(f, "array", t, pc, "array_mode", {"ARRAY"})
        elif t.op == "call" and method_name(t) == f.name and any(x.op in ("extern", "global") and str(x.args[0]).endswith("JsonType") for _, x in t.args[2]):
            if struct:
                only(f, "structure as JSON", t, pc, "struct_mode", {"JSON"})
            else:
                only(f, "array as JSON", t, pc, "array_mode", {"JSON"})
    need(f, "inline structure", {"INLINE"})
    need(f, "structure type name", {"TYPE"})
    need(f, "structure as JSON", {"JSON"})
    need(f, "array", {"ARRAY"})
    need(f, "array as JSON", {"JSON"})

    # join tables
    f = c.find_method("_get_relationship")
    r = ctx.run(f, c, inline=inline_conv)
    alts = [(t, pc) for v, base in r.returns for t, pc in guarded(v, base) if t.op in ("seq", "tup", "new") and top_level(t, v)]
    ctx.check(bool(alts), "mode-effective", f"{f.short}: join table", f.loc(), "no relation is reported")
    for t, pc in alts:
        entity = {x: FALSE for p in pc for x in walk(p) if x.op == "call" and method_name(x) == "is_entity_type"}
        ec = prog.find_class("ArrayMode")
        for m in enum_members(ec):
            v = pc_under(pc, {**entity, opt("array_mode"): T("enum", (ec, m))})
            if m == "RELATION":
                if v is not False:
                    seen[("join table", m)] = True
            else:
                ctx.check(v is False, "mode-exclusive", f"{f.short}: join table under array_mode {m}", t.loc or f.loc(), f"a list of values becomes a join table under array_mode {m}")
    need(f, "join table", {"RELATION"})

    # tables
    f = c.find_method("dataclass_to_table")
    r = ctx.run(f, c, inline=inline_conv)
    foreign = opt("foreign_constraints")
    on = False
    for e in events(r):
        if e.op != "new":
            continue
        n = e.args[0].name
        kinds = mentions(e.pc, "is_type_enum", "is_extensible_enum_type")
        if n == "ForeignConstraint" or n == "DiscriminatedConstraint":
            ctx.count("mode sites")
            off = pc_under(e.pc, {foreign: FALSE})
            if not kinds or n == "DiscriminatedConstraint":
                ctx.check(off is False, "foreign-constraints", f"{f.short}: {n}", e.loc or f.loc(), f"{n} between entities is created although options.foreign_constraints is off")
                on = on or pc_under(e.pc, {foreign: TRUE}) is not False
            elif "is_type_enum" in kinds:
                only(f, "foreign key to lookup table", e, e.pc, "enum_mode", {"RELATION"})
        elif n == "CheckConstraint" and kinds:
            only(f, "CHECK constraint on enumeration", e, e.pc, "enum_mode", {"CHECK"})
            v = pc_under(e.pc, {opt("check_constraints"): FALSE})
            ctx.check(v is False, "check-constraints", f.short, e.loc or f.loc(), "a CHECK constraint on an enumeration is created although check constraints are off")
    ctx.check(on, "foreign-constraints", f"{f.short}: effective", f.loc(), "no foreign constraint is created when options.foreign_constraints is on")
    need(f, "foreign key to lookup table", {"RELATION"})
    need(f, "CHECK constraint on enumeration", {"CHECK"})

    # lookup tables
    f = c.find_method("_enum_table")
    r = ctx.run(f, c, inline=inline_conv)
    init = opt("initialize_tables")
    got = set()
    for t, pc in sites(ctx, r):
        if t.op == "newof" and t.args[0].op == "attr" and t.args[0].args[1] in ("enum_table_class", "table_class"):
            ctx.count("mode sites")
            full = t.args[0].args[1] == "enum_table_class"
            v = pc_under(pc, {init: FALSE if full else TRUE})
            ctx.check(v is False, "initialize-tables", f"{f.short}: {t.args[0].args[1]}", t.loc or f.loc(), f"{t.args[0].args[1]} is used although options.initialize_tables is {'off' if full else 'on'}")
            if pc_under(pc, {init: TRUE if full else FALSE}) is not False:
                got.add(full)
                if full:
                    ctx.check("values" in dict((k, v) for k, v in t.args[1]) or len(t.args[1]) > 2, "initialize-tables", f"{f.short}: values", t.loc or f.loc(), "the lookup table gets no values")
    ctx.check(got == {True, False}, "initialize-tables", f"{f.short}: effective", f.loc(), "options.initialize_tables has no effect")

    # catalog
    f = c.find_method("dataclasses_to_catalog")
    r = ctx.run(f, c, inline=inline_conv)
    regular = False
    for e in events(r):
        if e.op == "new" and e.args[0].is_subclass_of("EnumType"):
            only(f, "CREATE TYPE of enumeration", e, e.pc, "enum_mode", {"TYPE"})
        elif e.op == "newof" and e.args[0].op == "attr" and e.args[0].args[1] == "enum_class":
            only(f, "CREATE TYPE of enumeration", e, e.pc, "enum_mode", {"TYPE"})
        elif e.op == "call" and method_name(e) == "dataclass_to_struct":
            only(f, "CREATE TYPE of structure", e, e.pc, "struct_mode", {"TYPE"})
        elif e.op == "call" and method_name(e) == "_enum_table":
            if not mentions(e.pc, "is_extensible_enum_type"):
                only(f, "lookup table", e, e.pc, "enum_mode", {"RELATION"})
    need(f, "CREATE TYPE of enumeration", {"TYPE"})
    need(f, "CREATE TYPE of structure", {"TYPE"})
    need(f, "lookup table", {"RELATION"})

    # namespaces
    n = 0
    for name in sorted(CONTRACT | {"dataclass_to_constraints"}):
        f = c.find_method(name)
        if f is None:
            continue
        rr = ctx.run(f, c, inline=inline_conv)
        for e in events(rr):
            if e.op == "new" and e.args[0].name in ("QualifiedId", "PrefixedId") and e.args[1]:
                n += 1
                first = e.args[1][0][1]
                ctx.check(from_mapping(first), "namespace-mapping", f"{f.short}: {e.args[0].name}", e.loc or f.loc(), f"the namespace of an object is {show(first)[:80]} instead of the mapped one")
            elif e.op == "newof" and e.args[0].op == "attr" and e.args[0].args[1] == "namespace_class":
                nm = dict(e.args[1]).get("name", e.args[1][0][1] if e.args[1] else NONE_T)
                v = pc_under(e.pc, {opt("qualified_names"): TRUE})
                if v is not False:
                    n += 1
                    ctx.check(nm.op == "new" and nm.args[0].name == "LocalId" and from_mapping(nm.args[1][0][1]), "namespace-mapping", f"{f.short}: namespace", e.loc or f.loc(), f"the namespace is named {show(nm)[:80]} instead of by the mapping")
    ctx.count("namespace sites", n)
    ctx.minimum("namespace sites", 3)
    m = prog.find_class("NamespaceMapping")
    f = m.find_method("get")
    r = ctx.run(f, m)
    alts = [(t, pc) for t, pc in guarded(r.value) if top_level(t, r.value) and t.op != "phi"]
    dic = T("attr", (T("param", ("self",)), "dictionary"))
    ctx.check(bool(alts) and all(any(x == dic for x in walk(t)) for t, _ in alts), "namespace-mapping", f.short, f.loc(), f"the mapped name is {show(r.value)[:80]} instead of an entry of the dictionary")

    # automatic defaults
    f = c.find_method("member_to_column")
    r = ctx.run(f, c, inline=inline_conv)
    auto = opt("auto_default")
    n = {"own": 0, "auto": 0}
    for t in [e for e in events(r) if e.op == "newof"] or [r.value]:
        d = dict(t.args[1]).get("default") if t.op == "newof" else None
        if d is None:
            continue
        for v, pc in guarded(d):
            if v.op != "call" or method_name(v) != "constant":
                continue
            arg = v.args[2][0][1]
            if arg.op == "attr" and arg.args[1] == "default":
                n["own"] += 1
                ctx.check(pc_under(pc, {auto: FALSE}) is not False and pc_under(pc, {auto: TRUE}) is not False, "auto-default", f"{f.short}: declared default", v.loc or f.loc(), "a declared default depends on options.auto_default")
            else:
                n["auto"] += 1
                ctx.check(pc_under(pc, {auto: FALSE}) is False, "auto-default", f"{f.short}: automatic default", v.loc or f.loc(), "an automatic default is assigned although options.auto_default is off")
                ctx.check(pc_under(pc, {auto: TRUE}) is not False, "auto-default", f"{f.short}: effective", v.loc or f.loc(), "options.auto_default has no effect")
    ctx.check(n["auto"] > 0, "auto-default", f"{f.short}: sites", f.loc(), "no automatic default is assigned")
    ctx.check(n["own"] > 0, "auto-default", f"{f.short}: own default", f.loc(), "no declared default is assigned")


def from_mapping(t: T) -> bool:
    if t.op == "call" and method_name(t) == "get" and t.args[1] is not None:
        return t.args[1] == opt("namespaces") or (t.args[1].op == "attr" and t.args[1].args[1] == "namespaces")
    if t.op == "phi":
        # an absent namespace may be replaced by the empty name
        alts = [x for x in t.args[1:] if not (x.op == "const" and not x.args[0])]
        return bool(alts) and all(from_mapping(x) for x in alts)
    if t.op in ("or", "ornone"):
        return from_mapping(t.args[0])
    return False
