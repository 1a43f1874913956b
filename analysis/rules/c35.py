"""
Decides that the schema model reflects every declaration of the data-classes.

The functions of the converter that build database objects are evaluated to terms, with the helpers they use in place; each place where
a column, a constraint, a member or an object is made is taken with the conditions under which it is made, and both are brought into a
form that does not depend on how the field, its properties and its evaluated type were obtained. These are compared with what the
declarations require, the conditions as boolean functions of elementary conditions:

* `field`: a column has the name, data type, nullability, identity, default and description of the field
* `table`: a table has a column for each field that is not a relationship, the primary key of the class, and the constraints that its
  fields call for: unique, foreign key, discriminated key, lookup of an enumeration, values of an enumeration, range of an integer
* `struct`: a composite type has a member for each field
* `catalog`: each data-class and enumeration that is referenced gives rise to its object, in the namespace of its module, each
  relationship to a join table with both keys
* `lookup`: the table of an enumeration has a key, and a row for each of its members
* `relationship`: a field is a relationship if it is a list or set of data-classes (or of anything, if lists are made into tables)
* `names`: an object is named after its type, in the namespace that the module of the type maps to
* `keys`: what is read off a field type is what its annotations state; the key of a data-class is the field that is annotated as such
"""

from __future__ import annotations

import itertools
import re
from typing import Callable, Iterator, Optional

from ..common import guarded, method_name
from ..framework import Ctx, events
from ..interp import Result
from ..program import AnalysisError, FuncInfo, Program
from ..terms import FALSE, T, TRUE, conj, const, disj, is_const, neg, phi, rewrite, show, walk
from .c09 import atoms, normal, truth

ASSUMPTIONS = [
    "functions of strong_typing.inspection and strong_typing.docstring do what their names say",
    "whether a type is an entity, an enumeration or a relationship is decided by the functions of formation/inspection.py",
]

FIELDS = ("strong_typing.inspection.dataclass_fields", "dataclasses.fields")
CLS = T("param", ("cls",))
SELF = T("param", ("self",))


def opt(name: str) -> T:
    return T("attr", (T("attr", (SELF, "options")), name))


def sym(name: str) -> T:
    return T("sym", (name,))


F = sym("field")
TYPE = T("type of", (F,))


# parameters of what a factory makes
FACTORY = {"column_class": "Column", "table_class": "Table", "enum_table_class": "EnumTable", "namespace_class": "Namespace", "struct_class": "StructType", "struct_member_class": "StructMember", "enum_class": "EnumType"}
PARAMS: dict[str, list[str]] = {}


def parameters(prog: Program) -> None:
    for k, v in FACTORY.items():
        c = prog.find_class(v)
        init = c.find_method("__init__")
        PARAMS[k] = [a.arg for a in (init.args.posonlyargs + init.args.args)[1:]] if init is not None else [x[0] for x in c.dataclass_fields()]


def fn(name: str, *args: T) -> T:
    return T("fn", (name,) + args)


def short(name: object) -> str:
    return str(name).rsplit(".", 1)[-1]


class Form:
    "Terms of a function of the converter, independent of how a field and its type were obtained."

    def __init__(self, field: Optional[T] = None, cls: T = CLS) -> None:
        self.field, self.cls = field, cls
        self.memo: dict[T, T] = {}

    def of(self, t: T) -> T:
        if t not in self.memo:
            self.memo[t] = self.go(t)
        return self.memo[t]

    def each(self, x: object) -> object:
        if isinstance(x, T):
            return self.of(x)
        if isinstance(x, tuple):
            return tuple(self.each(y) for y in x)
        return x

    def go(self, t: T) -> T:
        if self.field is not None and t == self.field:
            return F
        if t.op in ("str", "copy", "tupleof", "listof") and len(t.args) >= 1 and isinstance(t.args[0], T) and t.op == "copy":
            return self.of(t.args[0])
        if t.op == "attr":
            o, a = self.of(t.args[0]), t.args[1]
            if o.op == "fn" and o.args[0] == "DataclassField" and a in ("name", "type", "default"):
                return o.args[1:][("name", "type", "default").index(a)]
            if o.op == "props" and a == "nullable" or o.op != "attr" or True:
                return T("attr", (o, a))
        if t.op == "new":
            args = tuple((k, self.of(v)) for k, v in t.args[1])
            name = t.args[0].name
            if name == "LocalId":
                return T("id", (args[0][1],))
            return T("make", (name, tuple(sorted((k, v) for k, v in args if not is_const(v, None)))))
        if t.op == "newof":
            callee = t.args[0]
            name = callee.args[1] if callee.op == "attr" else show(callee)
            args = tuple((PARAMS[name][int(k)] if name in PARAMS and k.isdigit() else k, self.of(v)) for k, v in t.args[1])
            return T("make", (name, tuple(sorted((k, v) for k, v in args if not is_const(v, None)))))
        if t.op == "call":
            name = short(t.args[0]) if not str(t.args[0]).startswith(".") else str(t.args[0])
            args = tuple(self.of(v) for _, v in t.args[2])
            if name == "get_field_properties" and len(args) == 1 and args[0].op == "attr" and args[0].args[1] == "type":
                return T("props", (args[0].args[0],))
            if name == "evaluate_member_type" and len(args) == 2 and args[1] == self.cls:
                a = args[0]
                if a.op == "attr" and a.args[1] == "field_type" and a.args[0].op == "props":
                    return T("type of", (a.args[0].args[0],))
                return T("evaluated", (a,))
            if name == "create_qualified_id" and len(args) == 2:
                m, n = args
                if m.op == "attr" and m.args[1] == "__module__" and n.op == "attr" and n.args[1] == "__name__" and m.args[0] == n.args[0]:
                    return T("table of", (m.args[0],))
                if m.op == "attr" and m.args[1] == "__module__":
                    return T("table", (m.args[0], n))
            if name in ("dataclass_fields", "fields"):
                name = "dataclass_fields"
            recv = t.args[1]
            if isinstance(recv, T) and recv != SELF:
                return T("fn", (name, self.of(recv)) + args)
            return T("fn", (name,) + args)
        if t.op == "isnone":
            x = self.of(t.args[0])
            return FALSE if x.op in ("extern", "func", "closure", "class") else T("isnone", (x,))
        if t.op == "phi":
            c = self.of(t.args[0])
            if is_const(c, True):
                return self.of(t.args[1])
            if is_const(c, False):
                return self.of(t.args[2])
            return phi(c, self.of(t.args[1]), self.of(t.args[2]))
        if t.op == "not":
            return neg(self.of(t.args[0]))
        if t.op in ("and", "or"):
            parts = [self.of(x) for x in t.args]
            return conj(parts) if t.op == "and" else disj(parts)
        if t.op in ("exists", "for") and isinstance(t.args[1], T):
            # bound variables are numbered by depth
            bv = sym(f"#{self.depth(t)}")
            inner = rewrite_bv(t, t.args[1], bv)
            return T(t.op, tuple(self.each(a) for a in inner.args))
        if t.op in ("const", "param", "bv", "sym", "extern", "enum", "class", "closure", "func", "global", "bottom"):
            return T(t.op, t.args)
        return T(t.op, tuple(self.each(a) for a in t.args))

    def depth(self, t: T) -> int:
        return sum(1 for x in walk(t) if x.op in ("for", "exists") and x is not t)


def rewrite_bv(t: T, bv: T, to: T) -> T:
    return rewrite(t, lambda x: to if x == bv else None)


def split(pc: tuple) -> tuple[list[tuple[T, T]], list[T]]:
    "Loops around a construct and other conditions."
    return [c.args for c in pc if c.op == "each"], [c for c in pc if c.op != "each"]  # type: ignore


def differs(a: T, b: T, given: Optional[T] = None) -> Optional[str]:
    "An assignment of elementary conditions for which two conditions differ."
    a, b = normal(a), normal(b)
    g = normal(given) if given is not None else TRUE
    names = list(dict.fromkeys([*atoms(a), *atoms(b), *atoms(g)]))
    if len(names) > 14:
        return "more than 14 elementary conditions"
    for vs in itertools.product([False, True], repeat=len(names)):
        env = dict(zip(names, vs))
        if truth(g, env) and truth(a, env) != truth(b, env):
            return ", ".join(f"{'' if v else 'not '}{brief(n)}" for n, v in env.items()) or "always"
    return None


def brief(t: T) -> str:
    return show(t)[:90]


class Fact:
    "Something that is made for a field (or for the class), and when."

    def __init__(self, term: T, cond: T, loc: Optional[str]) -> None:
        self.term, self.cond, self.loc = term, cond, loc


def facts(value: T, kinds: tuple[str, ...], fields: T, cls: T = CLS) -> Iterator[Fact]:
    "Objects of some kinds that are made for the fields of a class."
    merged: dict[T, Fact] = {}
    for t, pc in guarded(value):
        if t.op not in ("new", "newof"):
            continue
        name = t.args[0].name if t.op == "new" else t.args[0].args[1] if t.args[0].op == "attr" else ""
        if name not in kinds:
            continue
        loops, conds = split(pc)
        field = next((bv for src, bv in loops if src == fields), None)
        form = Form(field, cls)
        others = [src for src, bv in loops if bv != field]
        term = form.of(t)
        cond = conj([form.of(c) for c in conds])
        if others:
            cond = conj([cond, *[T("each", (form.of(s),)) for s in others]])
        if term in merged:
            merged[term].cond = disj([merged[term].cond, cond])
        else:
            merged[term] = Fact(term, cond, t.loc)
    yield from merged.values()


def args_of(t: T) -> dict[str, T]:
    return dict(t.args[1])


# -- checks


def fields_of(value: T) -> Optional[T]:
    for t, pc in guarded(value):
        for c in pc:
            if c.op == "each" and c.args[0].op == "call" and c.args[0].args[0] in FIELDS and c.args[0].args[2][0][1] == CLS:
                return c.args[0]
    return None


def helper(ctx: Ctx, keep: frozenset[str]) -> Callable[[FuncInfo, Optional[T]], bool]:
    "Helpers of the converter and of its module are followed; the functions that are examined on their own are not."

    def inline(g: FuncInfo, recv: Optional[T]) -> bool:
        if g.name in keep:
            return False
        return g.module.name.endswith("formation.py_to_sql")

    return inline


# functions whose meaning is given by name
NAMED = frozenset("""member_to_sql_data_type simple_type_to_sql_data_type create_qualified_id create_qualified_prefix create_unique_key_name create_foreign_key_name
create_check_name create_discriminated_key_name _get_relationship is_extensible_enum_type unwrap_extensible_enum_type _enumeration_key_type
member_to_column member_to_field dataclass_to_table dataclass_to_struct _enum_table _topological_sort _type_sort_key constant get_field_properties
get is_entity_type is_struct_type dataclass_primary_key_name dataclass_primary_key_type""".split())


def method(ctx: Ctx, name: str) -> FuncInfo:
    c = ctx.prog.find_class("DataclassConverter")
    f = c.find_method(name)
    if f is None:
        raise AnalysisError(f"DataclassConverter.{name} is gone")
    return f


def evaluate(ctx: Ctx, name: str, keep: frozenset[str] = NAMED) -> tuple[FuncInfo, Result]:
    f = method(ctx, name)
    r = ctx.run(f, f.cls, inline=helper(ctx, keep - {name}))
    ctx.analysed(f)
    return f, r


def check(ctx: Ctx) -> None:
    parameters(ctx.prog)
    field(ctx)
    table(ctx)
    struct(ctx)
    catalog(ctx)
    lookup(ctx)
    relationship(ctx)
    names(ctx)
    keys(ctx)
    ctx.minimum("facts", 10)


def of_kind(t: T, kinds: tuple[str, ...]) -> Iterator[tuple[T, tuple]]:
    for x, pc in guarded(t):
        if x.op in ("new", "newof"):
            name = x.args[0].name if x.op == "new" else x.args[0].args[1] if x.args[0].op == "attr" else ""
            if name in kinds:
                yield x, pc


def field(ctx: Ctx) -> None:
    f, r = evaluate(ctx, "member_to_column")
    form = Form(T("param", ("field",)))
    props = T("props", (F,))
    n = 0
    for t, pc in of_kind(r.value, ("column_class", "Column")):
        n += 1
        a = args_of(form.of(t))
        loc = t.loc or f.loc()
        ctx.check(not split(pc)[1], "field", f"{f.short}: column", loc, "a column is made under a condition")
        want = {
            "name": T("id", (T("attr", (F, "name")),)),
            "data_type": fn("member_to_sql_data_type", T("attr", (props, "field_type")), CLS),
            "nullable": T("attr", (props, "nullable")),
            "identity": T("attr", (props, "is_identity")),
        }
        for k, v in want.items():
            ctx.count("facts")
            ctx.check(a.get(k) == v, "field", f"{f.short}: {k}", loc, f"the {k} of the column is {show(a[k])[:90] if k in a else 'not given'}, not that of the field")
        described(ctx, f, a.get("description"), loc)
        default(ctx, f, a.get("default"), loc, props)
    ctx.check(n == 1, "field", f"{f.short}: column", f.loc(), f"{n} columns are made of a field")


def described(ctx: Ctx, f: FuncInfo, t: Optional[T], loc: str) -> None:
    ctx.count("facts")
    params = T("attr", (sym("doc"), "params"))
    name = T("attr", (F, "name"))
    doc = T("param", ("doc",))

    def fold(x: T) -> Optional[T]:
        if x == doc or x.op == "fn" and x.args[0] == "parse_type":
            return sym("doc")
        if x.op == "fn" and x.args[0] in (".get", "get") and len(x.args) >= 3 and x.args[2] == name:
            return T("sub", (rewrite(x.args[1], fold), name))
        return None

    t = rewrite(t, fold) if t is not None else None
    text = T("attr", (T("sub", (params, name)), "description"))
    present = {T("in", (name, params)), neg(T("isnone", (T("sub", (params, name)),)))}
    ok = t is not None and (t.op == "phi" and (t.args[0] in present and t.args[1] == text and is_const(t.args[2], None) or neg(t.args[0]) in present and t.args[2] == text and is_const(t.args[1], None)))
    ctx.check(ok, "field", f"{f.short}: description", loc, f"the description is {show(t)[:120] if t is not None else 'not given'}, not what is documented of the field")


def leaves(t: T, pc: tuple = ()) -> Iterator[tuple[T, tuple]]:
    if t.op == "phi":
        yield from leaves(t.args[1], pc + (t.args[0],))
        yield from leaves(t.args[2], pc + (neg(t.args[0]),))
    else:
        yield t, pc


def default(ctx: Ctx, f: FuncInfo, t: Optional[T], loc: str, props: T) -> None:
    ctx.count("facts")
    key = f"{f.short}: default"
    given = T("attr", (F, "default"))
    if t is None:
        ctx.bad("field", key, loc, "the default of the field is not passed on")
        return
    missing = T("extern", ("dataclasses.MISSING",))

    def fold(x: T) -> Optional[T]:
        if x.op == "cmp" and x.args[0] in ("==", "is", "!=", "is not") and {x.args[1], x.args[2]} == {given, missing}:
            y = sym("no default")
            return y if x.args[0] in ("==", "is") else neg(y)
        return None

    t = rewrite(t, fold)
    has = conj([neg(sym("no default")), neg(T("isnone", (given,)))])
    auto = conj([opt("auto_default"), neg(T("attr", (props, "nullable"))), neg(T("attr", (props, "is_primary"))), neg(T("attr", (props, "is_identity")))])
    stated: list[T] = []
    for v, pc in leaves(t):
        c = conj(list(pc))
        if v == fn("constant", given):
            stated.append(c)
        elif not is_const(v, None):
            # a default that is made up
            known = set(atoms(normal(conj([auto, has]))))
            parts = [x for p in pc for x in (p.args if p.op == "and" else (p,))]
            c = conj([x for x in parts if set(atoms(normal(x))) <= known])
            why = differs(conj([c, auto, neg(has)]), c)
            ctx.check(why is None, "field", f"{key}: automatic", loc, f"a default, {show(v)[:60]}, is made up when {why}: it is not asked for, or the field has one, or may be absent")
    written = representable(ctx)
    for x in walk(t):
        if x.op == "fn" and x.args[0] == "constant":
            for v, _ in leaves(x.args[1]):
                if v.op == "extern" and str(v.args[0]).rsplit(".", 1)[-1] in ("min", "max"):
                    kind = str(v.args[0]).rsplit(".", 1)[0]
                    ctx.count("facts")
                    ctx.check(kind in written, "field", f"{key}: {short(kind)}", loc, f"there is no representation for the default of type {kind} (constant has {', '.join(sorted(map(short, written)))})")
    why = differs(disj(stated), has) if stated else "always"
    ctx.check(why is None, "field", key, loc, f"the default of the column is not that of the field when {why}")


def representable(ctx: Ctx) -> set[str]:
    "Types of values that can be written as a literal."
    f = ctx.prog.find_func("model.data_types.constant")
    r = ctx.run(f, None)
    ctx.analysed(f)
    found: set[str] = set()
    for v, pc in guarded(r.value):
        for c in (*pc, v):
            for x in walk(c):
                if x.op == "isinstance" and len(x.args) >= 2:
                    found |= set(re.findall(r"[A-Za-z_][\w.]*", str(x.args[1])))
    return found


def table(ctx: Ctx) -> None:
    f, r = evaluate(ctx, "dataclass_to_table", NAMED)
    fields = fields_of(r.value)
    loc = f.loc()
    if fields is None:
        raise AnalysisError(f"{f.short} does not visit the fields of the class")
    made = [(t, pc) for t, pc in of_kind(r.value, ("table_class", "Table"))]
    ctx.check(len(made) == 1, "table", f"{f.short}: table", loc, f"{len(made)} tables are made of a class")
    for t, pc in made:
        a = {PARAMS["table_class"][int(k)] if k.isdigit() else k: v for k, v in t.args[1]}
        form = Form()
        doc = fn("parse_type", CLS)
        want = {
            "name": T("table of", (CLS,)),
            "primary_key": T("tup", (T("id", (fn("dataclass_primary_key_name", CLS),)),)),
            "description": T("attr", (doc, "full_description")),
        }
        for k, v in want.items():
            ctx.count("facts")
            got = form.of(a[k]) if k in a else None
            ctx.check(got == v, "table", f"{f.short}: {k}", t.loc or loc, f"the {k} of the table is {show(got)[:90] if got is not None else 'not given'}, not that of the class")
        columns(ctx, f, a.get("columns"), fields, t.loc or loc)
        constraints(ctx, f, a.get("constraints"), fields, t.loc or loc)


def columns(ctx: Ctx, f: FuncInfo, value: Optional[T], fields: T, loc: str) -> None:
    ctx.count("facts")
    conds, n = [], 0
    for t, pc in guarded(value) if value is not None else ():
        if t.op == "call" and method_name(t) == "member_to_column":
            loops, cs = split(pc)
            bv = next((b for s, b in loops if s == fields), None)
            args = dict(t.args[2])
            n += 1
            ok = bv is not None and len(loops) == 1 and args.get("field") == bv and args.get("cls") == CLS
            ctx.check(ok, "table", f"{f.short}: columns: field", t.loc or loc, f"a column is made of {show(args.get('field', t))[:60]}, not of each field of the class")
            ctx.check(Form().of(args.get("doc", t)) == fn("parse_type", CLS), "table", f"{f.short}: columns: doc", t.loc or loc, "columns are documented by something other than the class")
            if bv is not None:
                conds.append(conj([Form(bv).of(c) for c in cs]))
    plain = T("isnone", (fn("_get_relationship", T("attr", (F, "type"))),))
    why = differs(disj(conds), plain) if conds else "always"
    ctx.check(n > 0 and why is None, "table", f"{f.short}: columns", loc, f"there is no column for a field, or one for a relationship, when {why}")
    whole = value is not None and all(i.op != "for" or i.args[0] == fields for i in (value.args[1] if value.op == "seq" else ()))
    ctx.check(whole, "table", f"{f.short}: columns: order", loc, "columns do not follow the order of the fields")


def reference(table: T, column: T) -> T:
    return T("make", ("ConstraintReference", tuple(sorted([("table", T("table of", (table,))), ("columns", T("tup", (T("id", (column,)),)))]))))


NAME = T("attr", (F, "name"))
OWN = T("tup", (T("id", (NAME,)),))


def mode(e: str, m: str, ctx: Ctx) -> T:
    return T("enum", (ctx.prog.find_class(e), m))


def is_mode(option: str, e: str, m: str, ctx: Ctx) -> T:
    return T("cmp", ("==", opt(option), mode(e, m, ctx)))


def constraints(ctx: Ctx, f: FuncInfo, value: Optional[T], fields: T, loc: str) -> None:
    kinds = ("UniqueConstraint", "ForeignConstraint", "DiscriminatedConstraint", "CheckConstraint")
    if value is None:
        ctx.bad("table", f"{f.short}: constraints", loc, "the table has no constraints")
        return
    foreign = opt("foreign_constraints")
    relation = is_mode("enum_mode", "EnumMode", "RELATION", ctx)
    extensible = fn("is_extensible_enum_type", TYPE, CLS)
    enumeration = fn("is_type_enum", TYPE)
    members = fn("unwrap_union_types", fn("unwrap_annotated_type", TYPE))
    m = sym("#0")
    em = T("evaluated", (m,))
    every = neg(T("exists", (members, m, neg(fn("is_entity_type", em)))))
    refs = T("seq", ("list", (T("for", (members, m, (T("item", (reference(em, fn("dataclass_primary_key_name", em)),)),))),)))
    want: list[tuple[str, str, dict[str, T], T, Optional[T]]] = [
        ("unique", "UniqueConstraint", {"unique_columns": OWN}, T("attr", (T("props", (F,)), "is_unique")), foreign),
        ("foreign key", "ForeignConstraint", {"foreign_columns": OWN, "reference": reference(TYPE, fn("dataclass_primary_key_name", TYPE))}, conj([foreign, fn("is_entity_type", TYPE)]), None),
        ("discriminated key", "DiscriminatedConstraint", {"foreign_columns": OWN, "references": refs}, conj([foreign, fn("is_type_union", TYPE), every]), None),
        ("extensible enumeration", "ForeignConstraint", {"foreign_columns": OWN, "reference": reference(fn("unwrap_extensible_enum_type", TYPE, CLS), const("id"))}, extensible, None),
        ("enumeration lookup", "ForeignConstraint", {"foreign_columns": OWN, "reference": reference(TYPE, const("id"))}, conj([relation, enumeration]), None),
    ]
    found: dict[str, list[T]] = {}
    for fact in facts(value, kinds, fields):
        kind, a = fact.term.args[0], args_of(fact.term)
        ctx.count("constraints")
        name = a.pop("name", None)
        named = name is not None and name.op == "id" and CLS in set(walk(name)) and (NAME in set(walk(name)) or any(x.op == "attr" and x.args[0].op == "fn" and x.args[0].args[0] == "member_to_column" for x in walk(name)))
        ctx.check(named, "table", f"{f.short}: {kind}: name", fact.loc or loc, f"the name of a constraint, {show(name)[:80] if name is not None else 'none'}, does not tell the class and the field")
        if kind == "CheckConstraint":
            checked(ctx, f, fact, a, found)
            continue
        label = next((w[0] for w in want if w[1] == kind and w[2] == a), None)
        if label is None:
            ctx.bad("table", f"{f.short}: {kind}: {', '.join(show(v)[:60] for v in a.values())}", fact.loc or loc, f"a constraint that no declaration calls for: {kind} {', '.join(f'{k} = {show(v)[:120]}' for k, v in a.items())}")
            continue
        found.setdefault(label, []).append(fact.cond)
    for label, kind, a, cond, given in want:
        ctx.count("facts")
        have = disj(found[label]) if label in found else FALSE
        why = differs(have, cond, given)
        ctx.check(why is None, "table", f"{f.short}: {label}", loc, f"a constraint for a field ({label}) is made when it is not called for, or not made when it is: {why}")
    checks = conj([opt("check_constraints"), is_mode("enum_mode", "EnumMode", "CHECK", ctx), enumeration])
    for label, cond in (("enumeration values", checks), ("integer range", T("isnone", (fn("_get_relationship", T("attr", (F, "type"))),)))):
        ctx.count("facts")
        have = disj(found[label]) if label in found else FALSE
        why = differs(have, cond)
        ctx.check(why is None, "table", f"{f.short}: {label}", loc, f"a check for a field ({label}) is made when it is not called for, or not made when it is: {why}")


def checked(ctx: Ctx, f: FuncInfo, fact: Fact, a: dict[str, T], found: dict[str, list[T]]) -> None:
    "Values of an enumeration, or the range of an integer."
    e = sym("#0")
    values = T("seq", ("list", (T("for", (TYPE, e, (T("item", (fn("constant", T("attr", (e, "value"))),)),))),)))
    text = a.get("condition")
    loc = fact.loc or f.loc()
    if text is not None and text == T("tmpl", (T("id", (NAME,)), " IN (", T("join", (const(", "), values)), ")")):
        found.setdefault("enumeration values", []).append(fact.cond)
        return
    col = next((x for x in walk(text) if x.op == "fn" and x.args[0] == "member_to_column"), None) if text is not None else None
    if col is None or col.args[1:3] != (F, CLS):
        ctx.bad("table", f"{f.short}: CheckConstraint: {show(text)[:60] if text is not None else ''}", loc, f"a check that no declaration calls for: {show(text)[:160] if text is not None else ''}")
        return
    ty = T("attr", (col, "data_type"))
    lo, hi = T("attr", (ty, "minimum")), T("attr", (ty, "maximum"))
    integer = next((x for x in walk(T("tup", (text, fact.cond))) if x.op == "isinstance" and x.args[0] == ty), None)
    name = T("attr", (col, "name"))
    ok, why = integer is not None, "it is not limited to integers"
    for is_int, has_lo, has_hi in itertools.product((False, True), repeat=3):
        env = {integer: is_int, T("isnone", (lo,)): not has_lo, T("isnone", (hi,)): not has_hi}
        got = rendered(text, env)
        want = [g for g, on in ((("", name, " >= ", lo, ""), has_lo), (("", name, " <= ", hi, ""), has_hi)) if on and is_int]
        made = decide(fact.cond, env, got)
        if not want:
            if made is not False:
                ok, why = False, "a check is made for a column without a range"
            continue
        flat = [p for p in got if p]
        expect: list[object] = []
        for i, g in enumerate(want):
            expect += ([" AND "] if i else []) + ["("] + [p for p in g if p != ""] + [")"]
        if made is False or squeeze(flat) != squeeze(expect) and squeeze(flat) != squeeze([p for p in expect if p not in ("(", ")")]):
            ok, why = False, f"for a column with {'a minimum' if has_lo else ''}{' and ' if has_lo and has_hi else ''}{'a maximum' if has_hi else ''} the check is {''.join(p if isinstance(p, str) else '{' + show(p)[-20:] + '}' for p in flat) if made is not False else 'not made'}"
    ctx.check(ok, "table", f"{f.short}: integer range: text", loc, f"the range of an integer column is not checked: {why}")
    rest = rewrite(fact.cond, lambda x: TRUE if any(y == ty for y in walk(x)) and x.op not in ("and", "or", "not") else None)
    found.setdefault("integer range", []).append(rest)


def squeeze(parts: list) -> list:
    out: list = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return out


def rendered(t: T, env: dict[T, bool]) -> list:
    "Parts of a text under an assignment of elementary conditions."
    if t.op == "const":
        return [str(t.args[0])] if t.args[0] is not None else []
    if t.op == "tmpl":
        return [x for p in t.args for x in ([p] if isinstance(p, str) else rendered(p, env))]
    if t.op == "phi":
        c = decide(t.args[0], env, None)
        return rendered(t.args[1] if c is not False else t.args[2], env)
    if t.op == "join":
        out: list = []
        for i, x in enumerate(members_of(t.args[1], env)):
            out += (rendered(t.args[0], env) if i else []) + rendered(x, env)
        return out
    return [t]


def members_of(t: T, env: dict[T, bool]) -> list[T]:
    out: list[T] = []

    def go(items: tuple) -> None:
        for i in items:
            if i.op == "item":
                out.append(i.args[0])
            elif i.op == "if":
                go(i.args[1] if decide(i.args[0], env, None) else i.args[2])
            elif i.op == "splice":
                out.extend(members_of(i.args[0], env))
            elif i.op == "for":
                inner = members_of(i.args[0], env)
                for x in inner:
                    go(tuple(rewrite_bv(y, i.args[1], x) for y in i.args[2]))
            else:
                raise AnalysisError(f"the text of a check is not understood: {show(i)[:80]}")

    if t.op == "seq":
        go(t.args[1])
        return out
    if t.op == "phi":
        return members_of(t.args[1] if decide(t.args[0], env, None) else t.args[2], env)
    raise AnalysisError(f"the text of a check is not understood: {show(t)[:80]}")


def decide(c: T, env: dict[T, bool], text: object) -> Optional[bool]:
    if c in env:
        return env[c]
    if c.op == "const":
        return bool(c.args[0])
    if c.op == "not":
        v = decide(c.args[0], env, text)
        return None if v is None else not v
    if c.op in ("and", "or"):
        vs = [decide(x, env, text) for x in c.args]
        if c.op == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if c.op == "seq" or c.op == "phi" and c.args[1].op in ("seq", "join", "tmpl", "const") or c.op in ("join", "tmpl"):
        return bool(members_of(c, env)) if c.op == "seq" else bool("".join(p if isinstance(p, str) else "?" for p in rendered(c, env)))
    if c.op == "cmp" and c.args[0] in (">", ">=", "!=", "==") and c.args[1].op == "len":
        n = len(members_of(c.args[1].args[0], env))
        k = c.args[2].args[0]
        return {">": n > k, ">=": n >= k, "!=": n != k, "==": n == k}[c.args[0]]
    if c.op == "isnone":
        x = c.args[0]
        if x.op == "phi":
            return decide(phi(x.args[0], T("isnone", (x.args[1],)), T("isnone", (x.args[2],))), env, text) if False else (decide(T("isnone", (x.args[1] if decide(x.args[0], env, None) else x.args[2],)), env, text))
        if x.op in ("join", "tmpl"):
            return False
        if x.op == "const":
            return x.args[0] is None
    return None


def struct(ctx: Ctx) -> None:
    f, r = evaluate(ctx, "dataclass_to_struct", NAMED - {"member_to_field"})
    fields = fields_of(r.value)
    loc = f.loc()
    if fields is None:
        raise AnalysisError(f"{f.short} does not visit the fields of the class")
    made = [t for t, pc in of_kind(r.value, ("struct_class", "StructType"))]
    ctx.check(len(made) == 1, "struct", f"{f.short}: type", loc, f"{len(made)} types are made of a class")
    for t in made:
        a = {PARAMS["struct_class"][int(k)] if k.isdigit() else k: v for k, v in t.args[1]}
        form = Form()
        for k, v in (("name", T("table of", (CLS,))), ("description", T("attr", (fn("parse_type", CLS), "full_description")))):
            ctx.count("facts")
            got = form.of(a[k]) if k in a else None
            ctx.check(got == v, "struct", f"{f.short}: {k}", t.loc or loc, f"the {k} of the type is {show(got)[:90] if got is not None else 'not given'}, not that of the class")
        ms = list(of_kind(a["members"], ("StructMember", "struct_member_class"))) if "members" in a else []
        conds = []
        for m, pc in ms:
            loops, cs = split(pc)
            bv = next((b for s, b in loops if s == fields), None)
            form = Form(bv)
            b = args_of(form.of(m))
            conds.append(conj([form.of(c) for c in cs]))
            for k, v in (("name", T("id", (NAME,))), ("data_type", fn("member_to_sql_data_type", T("attr", (T("props", (F,)), "field_type")), CLS))):
                ctx.count("facts")
                ctx.check(b.get(k) == v, "struct", f"{f.short}: member {k}", m.loc or loc, f"the {k} of a member is {show(b[k])[:90] if k in b else 'not given'}, not that of the field")
            described(ctx, f, b.get("description"), m.loc or loc)
        why = differs(disj(conds), TRUE) if conds else "always"
        ctx.check(why is None, "struct", f"{f.short}: members", loc, f"a field has no member when {why}")


# -- catalog


ENTITY = T("elem", (T("param", ("entity_types",)),))
REFERENCED = T("elem", (T("fn", ("get_referenced_types", ENTITY)),))
WRAPPERS = ("dict.fromkeys", "reversed", "_topological_sort", "iter")
CHANNELS = (".append", ".add")


def members(t: T) -> Iterator[tuple[T, tuple[T, ...]]]:
    "Elements of a collection, each with the conditions under which it is in there; an element of a given collection stands for all."
    if t.op in ("sorted", "listof", "tupleof", "set", "copy", "setof", "frozenset") and t.args and isinstance(t.args[0], T):
        yield from members(t.args[0])
    elif t.op == "phi":
        for e, c in members(t.args[1]):
            yield e, (t.args[0],) + c
        for e, c in members(t.args[2]):
            yield e, (neg(t.args[0]),) + c
    elif t.op in ("binop", "setop") and t.args[0] in ("Add", "BitOr", "|", "+"):
        yield from members(t.args[1])
        yield from members(t.args[2])
    elif t.op == "call" and short(t.args[0]) in WRAPPERS + ("fromkeys",):
        yield from members(t.args[2][0][1])
    elif t.op == "call" and method_name(t) == "keys":
        yield from members(t.args[1])
    elif t.op == "seq":
        for i in t.args[1]:
            yield from entries(i)
    elif is_const(t) and not t.args[0]:
        return
    else:
        src = T("fn", (short(t.args[0]),) + tuple(v for _, v in t.args[2])) if t.op == "call" and t.args[1] is None else t
        yield T("elem", (src,)), ()


def entries(i: T) -> Iterator[tuple[T, tuple[T, ...]]]:
    if i.op == "item" or i.op == "kv":
        k = i.args[0]
        yield (k.args[0] if k.op == "kv" else k), ()
    elif i.op == "splice":
        yield from members(i.args[0])
    elif i.op == "if":
        for cond, items in ((i.args[0], i.args[1]), (neg(i.args[0]), i.args[2])):
            for x in items:
                for e, c in entries(x):
                    yield e, (cond,) + c
    elif i.op == "for":
        src, bv, items = i.args[:3]
        for e, c in members(src):
            for x in items:
                for e2, c2 in entries(rewrite_bv(x, bv, e)):
                    yield e2, c + c2
    elif i.op == "discard":
        return
    else:
        raise AnalysisError(f"a collection of types is not understood: {show(i)[:80]}")


def flat(pc: tuple, t: T) -> Iterator[tuple[T, tuple[T, ...]]]:
    "A term with the variables of the loops around it replaced by the elements they stand for."
    for n, c in enumerate(pc):
        if c.op == "each":
            for e, conds in members(c.args[0]):
                rest = tuple(rewrite_bv(x, c.args[1], e) for x in pc[n + 1 :])
                for t2, c2 in flat(rest, rewrite_bv(t, c.args[1], e)):
                    yield t2, tuple(pc[:n]) + conds + c2
            return
    yield t, tuple(pc)


def rooted(t: T, pc: tuple) -> Iterator[tuple[str, T, T]]:
    "The data-class at issue is named `cls`, its field `field`."
    for x, conds in flat(pc, t):
        c = conj(list(conds))
        both = set(walk(T("tup", (x, c))))
        for root in (ENTITY, REFERENCED):
            fs = [y for y in both if y.op == "elem" and y.args[0].op == "fn" and y.args[0].args[0] in ("dataclass_fields", "fields") and y.args[0].args[1] == root]
            if root == ENTITY and (REFERENCED in set(walk(x)) or not (root in set(walk(x)))):
                continue
            if root == REFERENCED and REFERENCED not in set(walk(x)):
                continue

            def put(y: T, field: Optional[T] = fs[0] if fs else None, root: T = root) -> Optional[T]:
                return sym("the field") if field is not None and y == field else CLS if y == root else None

            form = Form(sym("the field"))
            yield ("listed" if root == ENTITY else "referenced"), form.of(tidy(rewrite(x, put))), form.of(tidy(rewrite(c, put)))


def tidy(t: T) -> T:
    def go(x: T) -> Optional[T]:
        if x.op == "sub" and is_const(x.args[1]) and x.args[1].args[0] in (0, 1):
            return T("proj", (rewrite(x.args[0], go), x.args[1].args[0]))
        return None

    return rewrite(t, go)


ITEM = T("proj", (fn("_get_relationship", T("attr", (F, "type"))), 1))
RELATION_KIND = T("proj", (fn("_get_relationship", T("attr", (F, "type"))), 0))
MODULE = T("attr", (CLS, "__module__"))


def catalog(ctx: Ctx) -> None:
    f, r = evaluate(ctx, "dataclasses_to_catalog")
    loc = f.loc()
    added: dict[tuple[str, str, T, T], list[T]] = {}
    where: dict[tuple[str, T], str] = {}
    for e in events(r):
        if e.op != "call" or e.args[0] not in CHANNELS or len(e.args[2]) != 1:
            continue
        made = e.args[2][0][1]
        kind = made_kind(made)
        if kind is None:
            continue
        module = keyed(e.args[1])
        if module is None:
            continue
        for root, x, cond in rooted(T("tup", (made, module)), e.pc):
            added.setdefault((kind, root, x.args[0], x.args[1]), []).append(cond)
            where[(kind, x.args[0])] = e.loc
    enum_mode = is_mode("enum_mode", "EnumMode", "TYPE", ctx)
    relation = is_mode("enum_mode", "EnumMode", "RELATION", ctx)
    struct_mode = is_mode("struct_mode", "StructMode", "TYPE", ctx)
    entity = fn("is_entity_type", CLS)
    e0 = sym("#0")
    values = T("seq", ("list", (T("for", (CLS, e0, (T("item", (T("tmpl", (T("attr", (e0, "value")),)),)),))),)))
    ns = T("fn", ("get", T("attr", (T("attr", (SELF, "options")), "namespaces")), MODULE))
    name = T("make", ("QualifiedId", tuple(sorted([("namespace", ns), ("id", T("attr", (CLS, "__name__")))]))))
    enum_type = T("make", ("EnumType", tuple(sorted([("enum_id", name), ("values", values)]))))
    listed, of_list, of_set = fn("is_type_enum", TYPE), fn("unwrap_generic_list", TYPE), fn("unwrap_generic_set", TYPE)
    want: list[tuple[str, str, T, T, T]] = [
        ("enumeration", "enum", enum_type, conj([enum_mode, fn("is_type_enum", CLS), neg(T("cmp", (">", const(2), T("len", (values,)))))]), MODULE),
        ("composite type", "struct", fn("dataclass_to_struct", CLS), conj([struct_mode, fn("is_struct_type", CLS)]), MODULE),
        ("table", "table", fn("dataclass_to_table", CLS), entity, MODULE),
        ("lookup table (E)", "lookup", fn("_enum_table", TYPE), conj([entity, relation, listed]), T("attr", (TYPE, "__module__"))),
        ("lookup table (list of E)", "lookup", fn("_enum_table", of_list), conj([entity, relation, fn("is_generic_list", TYPE), fn("is_type_enum", of_list)]), T("attr", (of_list, "__module__"))),
        ("lookup table (set of E)", "lookup", fn("_enum_table", of_set), conj([entity, relation, fn("is_generic_set", TYPE), fn("is_type_enum", of_set)]), T("attr", (of_set, "__module__"))),
    ]
    extensible = fn("unwrap_extensible_enum_type", TYPE, CLS)
    want.append(("lookup table (extensible)", "lookup", fn("_enum_table", extensible), conj([entity, fn("is_extensible_enum_type", TYPE, CLS)]), T("attr", (extensible, "__module__"))))
    concrete = {"listed": neg(fn("isabstract", CLS)), "referenced": neg(fn("isabstract", ENTITY))}
    known: set[tuple[str, str, T, T]] = set()
    for label, kind, made, cond, module in want:
        for root in ("referenced",) if kind in ("enum", "struct") else ("listed", "referenced"):
            ctx.count("facts")
            key = (kind, root, made, module)
            have = disj(added.get(key, [FALSE]))
            why = differs(have, conj([concrete[root], cond]))
            at = where.get((kind, made), loc)
            ctx.check(why is None, "catalog", f"{f.short}: {label}: {root}", at, f"what a {root} data-class calls for ({label}) is in the catalog, in the namespace of its module, when it is not called for, or not when it is: {why}")
        known |= {(kind, root, made, module) for root in concrete}
    joins = [k for k in added if k[0] == "join"]
    for k, conds in added.items():
        if k not in known and k[0] != "join":
            ctx.bad("catalog", f"{f.short}: {k[0]}: {show(k[2])[:60]}", where[(k[0], k[2])], f"something that no declaration calls for is in the catalog: {show(k[2])[:160]} in the namespace of {show(k[3])[:60]}")
    for root in ("listed", "referenced"):
        mine = [k for k in joins if k[1] == root]
        have = disj([c for k in mine for c in added[k]]) if mine else FALSE
        rel = fn("_get_relationship", T("attr", (F, "type")))
        item = disj([fn("is_entity_type", ITEM), conj([relation, fn("is_type_enum", ITEM)])])
        ctx.count("facts")
        why = differs(have, conj([concrete[root], entity, neg(T("isnone", (rel,)))]), item)
        ctx.check(why is None, "catalog", f"{f.short}: join table: {root}", where[("join", mine[0][2])] if mine else loc, f"a relationship has no join table, or a join table no relationship, when {why}")
    for made in dict.fromkeys(k[2] for k in joins):
        join(ctx, f, made, where[("join", made)])
    for k in joins:
        ctx.check(k[3] == MODULE, "catalog", f"{f.short}: join table: namespace", where[("join", k[2])], f"a join table is in the namespace of {show(k[3])[:80]}, not of the data-class it belongs to")
    gathered(ctx, f, r, added)


def made_kind(t: T) -> Optional[str]:
    if t.op == "call":
        return {"dataclass_to_struct": "struct", "dataclass_to_table": "table", "_enum_table": "lookup"}.get(method_name(t))
    name = t.args[0].name if t.op == "new" else t.args[0].args[1] if t.op == "newof" and t.args[0].op == "attr" else ""
    return {"EnumType": "enum", "enum_class": "enum", "Table": "join", "table_class": "join"}.get(name)


def keyed(recv: T) -> Optional[T]:
    "The key of a list in a dictionary of lists."
    if recv.op == "call" and method_name(recv) == "setdefault":
        return recv.args[2][0][1]
    if recv.op == "sub":
        return recv.args[1]
    return None


def join(ctx: Ctx, f: FuncInfo, made: T, loc: str) -> None:
    "A join table has a key of its own, and refers to the data-class and to the item."
    for label, is_entity in (("of data-classes", True), ("of an enumeration", False)):

        def case(x: T) -> Optional[T]:
            return (TRUE if is_entity else FALSE) if x == fn("is_entity_type", ITEM) else None

        t = Form(F).of(rewrite(made, case))
        a = args_of(t)
        key = f"{f.short}: join table {label}"
        name = a.get("name")
        ctx.count("facts")
        ctx.check(
            name is not None and name.op == "table" and name.args[0] == CLS and {T("attr", (CLS, "__name__")), NAME} <= set(walk(name.args[1])),
            "catalog", f"{key}: name", loc, f"the name of a join table, {show(name)[:80] if name is not None else 'none'}, does not tell the class and the field",
        )
        cols = [i.args[0] for i in a["columns"].args[1] if i.op == "item"] if "columns" in a and a["columns"].op == "seq" else []
        by_type: dict[T, T] = {}
        for c in cols:
            b = args_of(c) if c.op == "make" else {}
            if "data_type" in b and "name" in b:
                by_type[b["data_type"]] = b["name"]
            ctx.check(b.get("nullable") is not None and is_const(b["nullable"], False), "catalog", f"{key}: nullable", loc, "a column of a join table may be absent")
        item_name = T("id", (fn("dataclass_primary_key_name", ITEM) if is_entity else const("id"),))
        item_key = fn("member_to_sql_data_type", fn("dataclass_primary_key_type", ITEM), ITEM) if is_entity else fn("_enumeration_key_type")
        left = by_type.get(fn("member_to_sql_data_type", fn("dataclass_primary_key_type", CLS), CLS))
        right = by_type.get(item_key)
        own = [n for ty, n in by_type.items() if n not in (left, right)]
        ctx.check(left is not None, "catalog", f"{key}: owner", loc, "a join table has no column of the type of the key of the data-class")
        ctx.check(right is not None, "catalog", f"{key}: item", loc, "a join table has no column of the type of the key of the item")
        ctx.check(len(cols) == len(set(by_type.values())) == 3, "catalog", f"{key}: columns", loc, f"a join table has {len(cols)} columns, {len(set(by_type.values()))} of them distinct, in place of 3")
        ctx.check(len(own) == 1 and a.get("primary_key") == T("tup", (own[0],)), "catalog", f"{key}: primary key", loc, "a join table has no primary key of its own")
        kinds: list[tuple[str, dict[str, T], T]] = []
        cs = a.get("constraints")
        for x, pc in of_made(cs) if cs is not None else ():
            b = args_of(x)
            b.pop("name", None)
            kinds.append((x.args[0], b, conj([c for c in pc])))
        if left is None or right is None:
            continue
        pk = T("id", (fn("dataclass_primary_key_name", CLS),))
        refs = [
            ("owner", {"foreign_columns": T("tup", (left,)), "reference": ref("table of", (CLS,), pk)}),
            ("item", {"foreign_columns": T("tup", (right,)), "reference": ref("table of", (ITEM,), item_name)}),
        ]
        for what, b in refs:
            ctx.count("facts")
            ok = any(k == "ForeignConstraint" and b2 == b and c == TRUE for k, b2, c in kinds)
            ctx.check(ok, "catalog", f"{key}: reference to the {what}", loc, f"a join table does not refer to the key of the {what}")
        is_set = T("cmp", ("==", RELATION_KIND, T("extern", ("set",))))
        uniques = [(b, c) for k, b, c in kinds if k == "UniqueConstraint"]
        ctx.count("facts")
        when = disj([rewrite(c, lambda x: is_set if x.op == "cmp" and x.args[0] in ("is", "==") and RELATION_KIND in x.args[1:] and any(short(y.args[0]) == "set" for y in x.args[1:] if isinstance(y, T) and y.op in ("extern", "global", "type")) else None) for _, c in uniques])
        why = differs(when, is_set) if uniques else "always"
        ctx.check(why is None, "catalog", f"{key}: set", loc, f"elements of a set may be repeated, or those of a list may not, when {why}")
        for b, _ in uniques:
            cols_ = b.get("unique_columns")
            ids = set(cols_.args) if cols_ is not None and cols_.op == "tup" else set()
            which = {left: "owner", right: "item"}
            over = " and ".join(sorted(which.get(x, "other") for x in ids))
            ctx.check(ids == {left, right}, "catalog", f"{key}: set: unique {over}", loc, f"elements of a set are unique by {over}, not for each owner: two data-classes cannot share an element")


def ref(op: str, args: tuple, column: T) -> T:
    return T("make", ("ConstraintReference", tuple(sorted([("table", T(op, args)), ("columns", T("tup", (column,)))]))))


def of_made(t: T, pc: tuple = ()) -> Iterator[tuple[T, tuple]]:
    if t.op == "make":
        yield t, pc
        return
    if t.op == "if":
        for x in t.args[1]:
            yield from of_made(x, pc + (t.args[0],))
        for x in t.args[2]:
            yield from of_made(x, pc + (neg(t.args[0]),))
        return
    if t.op == "phi":
        yield from of_made(t.args[1], pc + (t.args[0],))
        yield from of_made(t.args[2], pc + (neg(t.args[0]),))
        return
    for x in t.args:
        for y in x if isinstance(x, tuple) else (x,):
            if isinstance(y, T):
                yield from of_made(y, pc)


def gathered(ctx: Ctx, f: FuncInfo, r: Result, added: dict) -> None:
    "Namespaces hold what has been made for their modules."
    fields = {"enums": ("enum",), "structs": ("struct",), "tables": ("table", "lookup", "join")}
    made = [(t, pc) for t, pc in of_kind(r.value, ("namespace_class", "Namespace"))]
    qualified = opt("qualified_names")
    seen = []
    for t, pc in made:
        loops, conds = split(pc)
        when = conj([Form().of(c) for c in conds])
        seen.append(when)
        args = {PARAMS["namespace_class"][int(k)] if k.isdigit() else k: v for k, v in t.args[1]}
        mode = "namespaces" if loops else "one namespace"
        label = f"{f.short}: {mode}"
        at = t.loc or f.loc()
        for name, kinds in fields.items():
            ctx.count("facts")
            value = args.get(name)
            if value is None:
                ctx.bad("catalog", f"{label}: {name}", at, f"{name} are not part of a namespace")
                continue
            want = {(root, module): disj([disj(cs) for (k, ro, _, m), cs in added.items() if k in kinds and ro == root and m == module]) for (k, root, _, module) in added if k in kinds}
            have: dict[tuple[str, T], list[T]] = {}
            if loops:
                bv = loops[-1][1]
                d = value.args[1] if value.op == "call" and method_name(value) == "get" and value.args[2][0][1] == bv else value.args[0] if value.op == "sub" and value.args[1] == bv else None
                if d is None:
                    ctx.bad("catalog", f"{label}: {name}", at, f"{name} of a namespace, {show(value)[:80]}, are not those of its module")
                    continue
                keys = list(members(d))
                named = Form().of(args["name"]) if "name" in args else None
                ns = T("fn", ("get", T("attr", (T("attr", (SELF, "options")), "namespaces")), bv))
                ok = named is not None and named.op == "id" and ns in set(walk(named))
                ctx.check(ok, "catalog", f"{label}: name", at, f"the name of a namespace, {show(named)[:80] if named is not None else 'none'}, is not what its module maps to")
                visited: dict[T, list[T]] = {}
                for k, cs in members(loops[-1][0]):
                    visited.setdefault(k, []).append(conj(list(cs)))
                all_in = all(k in visited and differs(disj(visited[k]), TRUE, conj(list(cs))) is None for k, cs in keys)
                ctx.check(all_in, "catalog", f"{label}: {name}: modules", at, f"a module that has {name} has no namespace")
            else:
                keys = []
                for e, cs in members(value):
                    m = next((keyed(x) for x in walk(e) if x.op == "call" and method_name(x) == "setdefault" or x.op == "sub" and x.args[1].op == "attr"), None)
                    if m is not None:
                        keys.append((m, cs))
            for k, cs in keys:
                for root, x, c in rooted(k, cs):
                    have.setdefault((root, x), []).append(c)
            ok = set(have) == set(want)
            why = None if ok else "a module is left out, or added"
            for k in want:
                if ok and why is None and not (name != "tables" and k[0] == "listed"):
                    why = differs(disj(have[k]), want[k])
            ctx.check(why is None, "catalog", f"{label}: {name}", at, f"{name} are not gathered as they have been made: {why}")
    why = differs(disj(seen), TRUE) if seen else "always"
    ctx.check(why is None, "catalog", f"{f.short}: namespaces", f.loc(), f"there is no namespace when {why}")
    ctx.check(any(differs(c, qualified) is None for c in seen), "catalog", f"{f.short}: namespaces: qualified", f.loc(), "namespaces are not told apart exactly when names are qualified")


# -- lookup tables


def lookup(ctx: Ctx) -> None:
    f, r = evaluate(ctx, "_enum_table")
    loc = f.loc()
    enum_param = T("param", (f.args.args[1].arg,))

    def plain(x: T) -> Optional[T]:
        # an enumeration type is not annotated; the type of its values
        if x.op == "call" and method_name(x) == "unwrap_annotated_type":
            y = rewrite(x.args[2][0][1], plain)
            return y if y in (CLS, sym("value type")) else None
        if x.op == "call" and method_name(x) in ("pop", "next", "one") and isinstance(x.args[1], T) and value_types(x.args[1]) or x.op in ("next", "proj") and value_types(x.args[0]):
            return sym("value type")
        return CLS if x == enum_param else None

    def value_types(x: T) -> bool:
        return any(y.op == "attr" and y.args[1] == "value" for y in walk(x)) and any(y.op == "call" and y.args[0] == "type" or y.op == "typeof" for y in walk(x))

    value = rewrite(r.value, plain)
    vt = sym("value type")
    simple = disj([T("cmp", ("==", vt, T("extern", (t,)))) for t in ("int", "str")])
    made = [(t, conj([Form().of(c) for c in split(pc)[1]])) for t, pc in of_kind(value, ("enum_table_class", "EnumTable", "table_class", "Table"))]
    ctx.check(bool(made), "lookup", f"{f.short}: table", loc, "no table is made of an enumeration")
    filled = []
    for t, when in made:
        a = args_of(Form().of(t))
        kind = t.args[0].args[1] if t.op == "newof" else t.args[0].name
        at = t.loc or loc
        key = f"{f.short}: {kind}"
        want: list[tuple[str, T]] = [("name", T("table of", (CLS,))), ("primary_key", T("tup", (T("id", (const("id"),)),)))]
        e = sym("#0")
        if kind in ("enum_table_class", "EnumTable"):
            filled.append(when)
            want.append(("values", T("seq", ("list", (T("for", (CLS, e, (T("item", (T("attr", (e, "value")),)),))),)))))
        for k, v in want:
            ctx.count("facts")
            ctx.check(a.get(k) == v, "lookup", f"{key}: {k}", at, f"the {k} of the table of an enumeration is {show(a[k])[:90] if k in a else 'not given'}")
        raw = {PARAMS["table_class"][int(k)] if k.isdigit() else k: v for k, v in t.args[1]}
        cols: dict[str, list[tuple[dict[str, T], T]]] = {}
        fields = []
        for c, pc in guarded(raw["columns"]) if "columns" in raw else ():
            loops, cs = split(pc)
            cond = conj([Form().of(x) for x in cs])
            if c.op in ("new", "newof") and made_column(c):
                b = args_of(Form().of(c))
                cols.setdefault(show(b["name"]) if "name" in b else "", []).append((b, cond))
            elif c.op == "call" and method_name(c) == "member_to_column":
                bv = loops[-1][1] if loops else None
                src = Form().of(loops[-1][0]) if loops else None
                args = dict(c.args[2])
                ok = bv is not None and args.get("field") == bv and src == fn("dataclass_fields", vt)
                ctx.check(ok, "lookup", f"{key}: columns of values", at, "columns of an enumeration of data-classes are not made of their fields")
                fields.append(cond)
        ids = cols.get(show(T("id", (const("id"),))), [])
        ctx.count("facts")
        ok = len(ids) == 1 and ids[0][1] == TRUE and ids[0][0].get("data_type") == fn("_enumeration_key_type") and is_false(ids[0][0].get("nullable")) and is_true(ids[0][0].get("identity"))
        ctx.check(ok, "lookup", f"{key}: key", at, "the table of an enumeration has no identity column `id`")
        vals = cols.get(show(T("id", (const("value"),))), [])
        ctx.count("facts")
        why = differs(disj([c for _, c in vals]) if vals else FALSE, simple)
        ctx.check(why is None, "lookup", f"{key}: value", at, f"the table of an enumeration of numbers or text has no column `value`, or another does, when {why}")
        ctx.check(all(is_false(b.get("nullable")) for b, _ in vals), "lookup", f"{key}: value: nullable", at, "a value of an enumeration may be absent")
        why = differs(disj(fields) if fields else FALSE, neg(simple))
        ctx.check(why is None, "lookup", f"{key}: fields", at, f"the table of an enumeration of data-classes has no column for the fields, or another does, when {why}")
        uniques = [(args_of(Form().of(x)), conj([Form().of(y) for y in split(pc)[1]])) for x, pc in of_kind(raw["constraints"], ("UniqueConstraint",))] if "constraints" in raw else []
        ctx.count("facts")
        why = differs(disj([c for b, c in uniques if b.get("unique_columns") == T("tup", (T("id", (const("value"),)),))]) if uniques else FALSE, simple)
        ctx.check(why is None, "lookup", f"{key}: unique", at, f"values of an enumeration are not unique when {why}")
    why = differs(disj(filled) if filled else FALSE, opt("initialize_tables"))
    ctx.check(why is None, "lookup", f"{f.short}: rows", loc, f"the table of an enumeration has no rows when they are asked for, or has them when they are not: {why}")
    why = differs(disj([c for _, c in made]), TRUE)
    ctx.check(why is None, "lookup", f"{f.short}: table", loc, f"no table is made of an enumeration when {why}")


def made_column(t: T) -> bool:
    return t.op == "new" and t.args[0].name == "Column" or t.op == "newof" and t.args[0].op == "attr" and t.args[0].args[1] == "column_class"


def is_true(t: Optional[T]) -> bool:
    return t is not None and is_const(t, True)


def is_false(t: Optional[T]) -> bool:
    return t is not None and is_const(t, False)


# -- relationships


def chosen(t: T, truth_of: Callable[[T], Optional[bool]]) -> T:
    "The alternative of a value under an assignment of conditions."

    def cond(c: T) -> Optional[bool]:
        v = truth_of(c)
        if v is not None:
            return v
        if c.op == "const":
            return bool(c.args[0])
        if c.op == "phi":
            k = cond(c.args[0])
            return None if k is None else cond(c.args[1] if k else c.args[2])
        if c.op == "not":
            v = cond(c.args[0])
            return None if v is None else not v
        if c.op in ("and", "or"):
            vs = [cond(x) for x in c.args]
            if c.op == "and":
                return False if False in vs else None if None in vs else True
            return True if True in vs else None if None in vs else False
        return None

    def go(x: T) -> Optional[T]:
        if x.op == "phi":
            v = cond(x.args[0])
            if v is not None:
                return rewrite(x.args[1] if v else x.args[2], go)
        return None

    return rewrite(t, go)


def relationship(ctx: Ctx) -> None:
    f, r = evaluate(ctx, "_get_relationship")
    loc = f.loc()
    param = T("param", (f.args.args[1].arg,))
    relation = is_mode("array_mode", "ArrayMode", "RELATION", ctx)
    for optional, of_list, of_set, mode_, entity in itertools.product((False, True), repeat=5):
        if of_list and of_set:
            continue

        def truth_of(c: T) -> Optional[bool]:
            if c.op == "call":
                return {"is_type_optional": optional, "is_generic_list": of_list, "is_generic_set": of_set, "is_entity_type": entity}.get(method_name(c))
            return mode_ if Form().of(c) == relation else None

        got = Form().of(chosen(r.value, truth_of))
        x = fn("unwrap_annotated_type", fn("unwrap_optional_type", param) if optional else param)
        if (of_list or of_set) and (mode_ or entity):
            want = T("tup", (T("extern", ("list" if of_list else "set",)), fn("unwrap_generic_list" if of_list else "unwrap_generic_set", x)))
        else:
            want = const(None)
        ctx.count("facts")
        what = f"{'an optional ' if optional else 'a '}{'list' if of_list else 'set' if of_set else 'single value'} of {'data-classes' if entity else 'simple values'}{' (as tables)' if mode_ else ''}"
        ok = got == want or is_const(want, None) and is_const(got, None)
        ctx.check(ok, "relationship", f"{f.short}: {what}", loc, f"{what} is {'' if is_const(want, None) else 'not '}taken for a relationship: {show(got)[:100]}")


# -- names


def names(ctx: Ctx) -> None:
    f, r = evaluate(ctx, "create_qualified_id")
    form = Form()
    mod, obj = (T("param", (a.arg,)) for a in f.args.args[1:3])
    ns = T("fn", ("get", T("attr", (T("attr", (SELF, "options")), "namespaces")), mod))
    found: dict[str, list[T]] = {}
    for t, pc in of_kind(r.value, ("QualifiedId", "PrefixedId", "LocalId")):
        a = args_of(form.of(t))
        ctx.count("facts")
        ctx.check(a == {"namespace": ns, "id": obj}, "names", f"{f.short}: {t.args[0].name}", t.loc or f.loc(), f"an object is named {', '.join(f'{k} = {show(v)[:60]}' for k, v in a.items())}, not after its type and the namespace of its module")
        found.setdefault(t.args[0].name, []).append(conj([form.of(c) for c in pc]))
    for kind, cond in (("QualifiedId", opt("qualified_names")), ("PrefixedId", neg(opt("qualified_names")))):
        ctx.count("facts")
        why = differs(disj(found.get(kind, [FALSE])), cond)
        ctx.check(why is None, "names", f"{f.short}: {kind}", f.loc(), f"whether names are qualified does not follow the options when {why}")
    c = ctx.prog.find_class("NamespaceMapping")
    g = c.find_method("get")
    if g is None:
        raise AnalysisError("NamespaceMapping.get is gone")
    r = ctx.run(g, c)
    ctx.analysed(g)
    ctx.count("facts")
    module = T("sub", (T("extern", ("sys.modules",)), T("param", (g.args.args[1].arg,))))
    want = {T("sub", (T("attr", (SELF, "dictionary")), module))}
    got = {t for t, _ in leaves(r.value) if t.op != "bottom"}
    ctx.check(got == want, "names", f"{g.short}: namespace", g.loc(), f"a module maps to {', '.join(show(t)[:80] for t in got)}, not to what has been given for it")


# -- keys and annotations

TAGS = {"is_primary": "PrimaryKeyTag", "is_identity": "IdentityTag", "is_unique": "UniqueTag"}


def keys(ctx: Ctx) -> None:
    f = ctx.prog.find_func("model.properties.get_field_properties")
    r = ctx.run(f, None, inline=lambda g, x: g.module == f.module)
    ctx.analysed(f)
    param = T("param", (f.args.args[0].arg,))
    made = [(t, pc) for t, pc in of_kind(r.value, ("FieldProperties",))]
    ctx.check(bool(made), "keys", f"{f.short}: properties", f.loc(), "no properties are made of a field")
    removed = any(e.op == "call" and method_name(e) == "remove" and any(x.op == "class" and x.args[0].name == "DefaultTag" for x in walk(e)) for e in events(r))
    for t, pc in made:
        a = dict(t.args[1])
        loc = t.loc or f.loc()
        bare = any(c.op == "isnone" and "__metadata__" in show(c) for c in pc)
        for k, tag in TAGS.items():
            ctx.count("facts")
            v = a.get(k)
            if bare and is_false(v):
                continue
            found = [] if v is None else list(v.args) if v.op == "or" else [v]
            ok = bool(found) and all(x.op == "exists" and x.args[2].op == "isinstance" and x.args[2].args[0] == x.args[1] and short(x.args[2].args[1]).split("'")[0].endswith(tag) for x in found)
            ok = ok and annotations(T("tup", tuple(x.args[0] for x in found)), param, r)
            ctx.check(ok, "keys", f"{f.short}: {k}", loc, f"{k} is {show(v)[:120] if v is not None else 'not given'}, not whether the field (also when it may be absent, or has a default) has the annotation {tag}")
        ctx.count("facts")
        v = a.get("nullable")
        ok = v is not None and v.op == "call" and method_name(v) == "is_type_optional" and param in set(walk(v))
        ctx.check(ok, "keys", f"{f.short}: nullable", loc, f"nullable is {show(v)[:120] if v is not None else 'not given'}, not whether the type of the field is optional")
        v = a.get("plain_type")
        ctx.count("facts")
        inner = v is not None and v.op == "call" and method_name(v) == "unwrap_annotated_type" and any(x.op == "call" and method_name(x) == "unwrap_optional_type" for x in walk(v))
        placeholder = v is not None and (removed or any(x.op in ("cmp", "isinstance", "discard") and any(y.op == "class" and y.args[0].name == "DefaultTag" for y in walk(x)) for x in walk(v)))
        ctx.check(inner, "keys", f"{f.short}: plain_type", loc, f"the plain type is {show(v)[:120] if v is not None else 'not given'}, not the type without annotations and None")
        ctx.check(placeholder, "keys", f"{f.short}: plain_type: default", loc, "the plain type has the placeholder of a default among its alternatives")
        v = a.get("metadata")
        if not bare:
            ctx.count("facts")
            text = {x.args[0].name for x in walk(v) if x.op == "class"} | {n for x in walk(v) if x.op == "isinstance" for n in TAGS.values() if n in str(x.args[1])} if v is not None else set()
            ok = v is not None and annotations(v, param, r) and set(TAGS.values()) <= text
            ctx.check(ok, "keys", f"{f.short}: metadata", loc, f"the annotations that are kept are {show(v)[:120] if v is not None else 'not given'}, not those other than constraints")
    for name, a_name in (("is_primary_key_type", "is_primary"), ("is_identity_type", "is_identity"), ("is_unique_type", "is_unique")):
        try:
            g = ctx.prog.find_func(f"model.properties.{name}")
        except AnalysisError:
            continue
        r2 = ctx.run(g, None)
        ctx.analysed(g)
        ctx.count("facts")
        ctx.check(Form(None).of(r2.value) == T("attr", (fn("get_field_properties", T("param", (g.args.args[0].arg,))), a_name)), "keys", f"{g.short}", g.loc(), f"{name} is {show(r2.value)[:100]}, which differs from {a_name} of the properties of a field, which sees annotations within optional types")
    of_class(ctx)


def annotations(t: T, param: T, r: Result) -> bool:
    "Annotations of a field type, and of the type within an optional type."
    sources = {x.args[0] for x in walk(t) if x.op == "attr" and x.args[1] == "__metadata__"}
    base = {x for x in walk(t)}
    for e in events(r):
        if e.op == "call" and method_name(e) in ("extend", "append") and e.args[1] in base and all("__metadata__" in show(c) for c in e.pc):
            sources |= {x.args[0] for x in walk(e.args[2][0][1]) if x.op == "attr" and x.args[1] == "__metadata__"}
    return param in sources and any(s != param and any(x.op == "call" and method_name(x) == "unwrap_optional_type" for x in walk(s)) for s in sources)


KEY_FUNCTIONS = [
    ("formation.inspection.dataclass_has_primary_key", "has"),
    ("formation.inspection.dataclass_primary_key_name", "name"),
    ("formation.inspection.dataclass_primary_key_type", "field_type"),
    ("model.properties.get_primary_key_name", "name"),
    ("model.properties.get_primary_key_name_type", "name, tsv_type"),
]


def of_class(ctx: Ctx) -> None:
    def inline(g: FuncInfo, recv: object) -> bool:
        return g.name in ("is_primary_key_type", "dataclass_has_primary_key")

    for name, what in KEY_FUNCTIONS:
        g = ctx.prog.find_func(name)
        r = ctx.run(g, None, inline=inline)
        ctx.analysed(g)
        param = T("param", (g.args.args[0].arg,))
        v = r.value
        ctx.count("facts")
        ok = v.op in ("found", "exists")
        if ok:
            src = Form().of(v.args[0])
            ok = src in (fn("dataclass_fields", param), fn("dataclass_fields", fn("unwrap_annotated_type", param)))
            form = Form(v.args[1])
            cond = form.of(v.args[2])
            ok = ok and cond == T("attr", (T("props", (F,)), "is_primary"))
            if what == "has":
                ok = ok and v.op == "exists"
            else:
                want = {"name": NAME, "field_type": T("attr", (T("props", (F,)), "field_type")), "name, tsv_type": T("tup", (NAME, T("attr", (T("props", (F,)), "tsv_type"))))}[what]
                ok = ok and v.op == "found" and form.of(v.args[3]) == want
        ctx.check(ok, "keys", g.short, g.loc(), f"{g.name} is {show(v)[:160]}, not {'whether there is a' if what == 'has' else f'the {what} of the first'} field that is annotated as a primary key")
    for name, positive in (("is_entity_type", True), ("is_struct_type", False)):
        g = ctx.prog.find_func(f"formation.inspection.{name}")
        r = ctx.run(g, None)
        ctx.analysed(g)
        param = T("param", (g.args.args[0].arg,))
        has = fn("dataclass_has_primary_key", param)
        ctx.count("facts")
        why = differs(Form().of(r.value), conj([fn("is_dataclass_type", param), has if positive else neg(has)]))
        ctx.check(why is None, "keys", g.short, g.loc(), f"{name} is not whether a type is a data-class {'with' if positive else 'without'} a primary key when {why}")
    g = ctx.prog.find_func("formation.inspection.get_entity_types")
    r = ctx.run(g, None)
    ctx.analysed(g)
    ctx.count("facts")
    found = list(members(r.value))
    modules = T("param", (g.args.args[0].arg,))
    ok = bool(found)
    for e, cs in found:
        obj = tidy(e)
        m = obj.args[0] if obj.op == "proj" and obj.args[1] == 1 else None
        call = m.args[0] if m is not None and m.op == "elem" else None
        ok = ok and call is not None and call.op == "fn" and call.args[0] == "getmembers" and call.args[1] == T("elem", (modules,)) and "is_entity_type" in show(call)
        own = [tidy(c) for c in cs]
        ok = ok and own == [T("in", (T("sub", (T("extern", ("sys.modules",)), T("attr", (obj, "__module__")))), modules))]
    ctx.check(ok, "keys", g.short, g.loc(), f"entity types are {show(r.value)[:160]}, not the data-classes with a primary key that are defined in one of the modules")
