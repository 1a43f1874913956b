"""
Decides that the values of a record and the columns it is written to are selected by one rule.

A *layout* describes a sequence: what it iterates over, the condition under which an item is included, and the item. Every operation
that loads rows or data-class objects is evaluated for every dialect up to the point where records meet columns (statement with
records, bulk copy with column list, copy stream). There, the layout of the record is compared with the layout of the columns:

* `align`: both iterate over the same fields, include a field under equivalent conditions (all truth assignments of the elementary
  conditions are compared), and the item of the record is the value at the position of the name that the column is looked up by.
  What a generated statement leaves out by itself (identity columns) is derived from the generators of the dialect.
* `typed`: the type information passed to a driver has one item per column of the statement, in the same order.
* `source`: each data source yields one record per source record, with the fields selected by its positions and converted by the
  function of the same position.
* `null`: a conversion is applied only to a value that is not None; None is passed on (and written as the null marker to a stream).
* `own`: a conversion function is made for the column, name and type of the very field whose position it occupies, and reads no other
  field.
* `binding`: no function object refers to a variable that is assigned again before the function is called (a loop variable).
* `delimiter`: a value written to a copy stream cannot contain the delimiter of fields or records.
"""

from __future__ import annotations

import ast
import itertools
from typing import Iterator, Optional

from ..common import conj_parts, hierarchy, implied, method_name
from ..framework import Ctx, events
from ..program import AnalysisError, ClassInfo, FuncInfo
from ..sqltext import Hole, Rep, variants
from ..terms import FALSE, TRUE, T, closure_env, conj, const, disj, is_const, neg, rewrite, show, subst, walk
from .c05 import dialect_of
from .c08 import inline as statement_inline, shape
from .c25 import leaves

ASSUMPTIONS = [
    "the caller's field names, field types and records are parallel sequences",
    "Table.get_columns returns the columns in the order asked for (see C08)",
    "strong_typing's dataclass_fields enumerates the fields that dataclasses.fields does, in that order",
    "batches are passed to the driver unchanged (see C10)",
]

LOADS = ("_insert_rows", "_upsert_rows", "insert_data", "upsert_data")
OPS = ("get_table_insert_stmt", "get_table_merge_stmt", "get_table_upsert_stmt")
SINKS = ("execute_all", "_execute_all", "_execute_typed")
OPAQUE = frozenset(SINKS + OPS) | frozenset(
    "execute _execute query_one query_all _query_all get_columns get_qualified_id get_table _get_transformer get_dataclasses_as_records get_dataclass_as_record "
    "get_field_extractor get_value_transformer get_enum_transformer get_enum_list_transformer get_table_delete_stmt get_primary_column batches is_relation "
    "get_referenced_table is_lookup_table local_id scope_id quoted_id compact_id to_data_source".split()
)
BV = T("bv", ("field",))
IDENT = T("identity", ())


class Layout:
    def __init__(self, src: T, guard: T, elem: T, pc: tuple = ()) -> None:
        self.src, self.guard, self.elem, self.pc = src, guard, elem, pc

    def __repr__(self) -> str:
        return f"for {show(self.src)[:80]} if {show(self.guard)[:80]}: {show(self.elem)[:60]}"


class Mismatch(Exception):
    pass


def strip(t: T) -> T:
    "A copy that has the same items in the same order."
    while t.op in ("listof", "tupleof", "copy", "iter") and isinstance(t.args[0], T):
        t = t.args[0]
    return t


def collection(t: T) -> list:
    return list(leaves((T("splice", (t,)),), strip=strip))


def cases(t: T, pc: tuple = ()) -> Iterator[tuple[T, tuple]]:
    "The values that a term may have, each with its condition."
    if t.op == "phi":
        yield from cases(t.args[1], pc + (t.args[0],))
        yield from cases(t.args[2], pc + (neg(t.args[0]),))
    elif t.op in ("copy", "await") and isinstance(t.args[0], T):
        yield from cases(t.args[0], pc)
    else:
        yield t, pc


# -- layouts


def layout(t: T) -> Layout:
    "The sequence as one loop with a condition."
    ls = [(l, c, v) for l, c, v in collection(t)]
    if len(ls) != 1:
        raise Mismatch(f"a sequence of {len(ls)} parts: {show(t)[:100]}")
    loops, conds, v = ls[0]
    if any(l == ("break",) for l in loops):
        raise Mismatch(f"a sequence that ends early: {show(t)[:100]}")
    if len(loops) != 1:
        raise Mismatch(f"a sequence with {len(loops)} nested loops: {show(t)[:100]}")
    src, bv = loops[0]
    return Layout(fields_of(alpha(src)), alpha(subst(conj(conds), bv, BV)), alpha(subst(v, bv, BV)))


def alpha(t: T) -> T:
    "Collections that are copied item by item are the collection itself; loops are numbered in order of occurrence."

    def plain(x: T) -> Optional[T]:
        y = strip(x)
        if y.op == "seq" and len(y.args[1]) == 1:
            i = y.args[1][0]
            if i.op == "splice" or i.op == "for" and i.args[2] == (T("item", (i.args[1],)),):
                return rewrite(i.args[0], plain)
        return None

    t = rewrite(t, plain)
    bound: dict[T, T] = {}
    for x in walk(t):
        if x.op in ("for", "exists") and isinstance(x.args[1], T) and x.args[1].op == "bv":
            bound.setdefault(x.args[1], T("bv", ("#", len(bound)), x.args[1].ty))
    return rewrite(t, lambda x: bound.get(x)) if bound else t


def fields_of(src: T) -> T:
    "Different ways to enumerate the fields of a data-class are the same."
    src = strip(src)
    if src.op == "call" and src.args[0] in ("dataclasses.fields", "strong_typing.inspection.dataclass_fields") and len(src.args[2]) == 1:
        return T("fields", (src.args[2][0][1],))
    return src


def column_lookup(t: T) -> Optional[tuple[T, T]]:
    "If a column is looked up in a table: the table and the name."
    if t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] == "columns":
        return t.args[0].args[0], t.args[1]
    if t.op == "call" and method_name(t) in ("get", "__getitem__") and t.args[2]:
        r = t.args[1]
        while isinstance(r, T) and r.op == "attr" and r.args[1] != "columns":
            r = r.args[0]
        if isinstance(r, T) and r.op == "attr" and r.args[1] == "columns":
            return r.args[0], t.args[2][0][1]
    return None


def conditions(g: T, name: Optional[T], tables: set[T]) -> T:
    "Conditions on the column of the field are expressed independently of how the column was obtained."

    def fn(x: T) -> Optional[T]:
        if x.op == "attr" and x.args[1] == "identity":
            c = column_lookup(x.args[0])
            if c is not None and name is not None and bare(c[1]) == bare(name):
                tables.add(c[0])
                return IDENT
        if x.op == "isnone" or x.op == "in":
            c = column_lookup(x.args[0]) if x.op == "isnone" else (x.args[1].args[0], x.args[0]) if x.args[1].op == "attr" and x.args[1].args[1] == "columns" else None
            if c is not None and name is not None and bare(c[1]) == bare(name):
                # a name without a column is an error
                tables.add(c[0])
                return FALSE if x.op == "isnone" else TRUE
        return None

    return rewrite(g, fn)


def bare(t: T) -> T:
    "The name as text, regardless of wrapping."
    while True:
        if t.op == "new" and len(t.args[1]) == 1:
            t = t.args[1][0][1]
        elif t.op == "attr" and t.args[1] in ("local_id", "id"):
            t = t.args[0]
        elif t.op == "tmpl" and len(t.args) == 1 and isinstance(t.args[0], T):
            t = t.args[0]
        elif t.op in ("str", "copy"):
            t = t.args[0]
        elif t.op == "call" and t.args[0] == "str" and len(t.args[2]) == 1:
            t = t.args[2][0][1]
        else:
            return t


# -- equivalence of conditions


def truth(c: T, env: dict[T, bool]) -> bool:
    if c.op == "const":
        return bool(c.args[0])
    if c.op == "not":
        return not truth(c.args[0], env)
    if c.op == "and":
        return all(truth(a, env) for a in c.args)
    if c.op == "or":
        return any(truth(a, env) for a in c.args)
    if c.op == "phi":
        return truth(c.args[1] if truth(c.args[0], env) else c.args[2], env)
    if c.op == "extern":
        return True
    return env[c]


def atoms(c: T) -> Iterator[T]:
    if c.op in ("not", "and", "or", "phi"):
        for a in c.args:
            yield from atoms(a)
    elif c.op not in ("const", "extern"):
        yield c


def normal(c: T) -> T:
    "Comparisons in one direction, emptiness in one form."

    def fn(x: T) -> Optional[T]:
        if x.op == "cmp" and x.args[0] in ("!=", "is not"):
            return neg(normal(T("cmp", ("==",) + x.args[1:], x.ty)))
        if x.op == "cmp" and x.args[0] in ("==", "is"):
            a, b = x.args[1:]
            if is_const(a, "") or is_const(b, ""):
                return neg(b if is_const(a, "") else a)
            return T("cmp", ("==",) + tuple(sorted((a, b), key=repr)), x.ty)
        if x.op == "len" and isinstance(x.args[0], T):
            return None
        return None

    return rewrite(c, fn)


def difference(a: T, b: T) -> Optional[str]:
    "An assignment of elementary conditions for which the two conditions differ."
    a, b = normal(a), normal(b)
    names = list(dict.fromkeys([*atoms(a), *atoms(b)]))
    if len(names) > 12:
        raise Mismatch("conditions with more than 12 elementary conditions")
    for vs in itertools.product([False, True], repeat=len(names)):
        env = dict(zip(names, vs))
        if truth(a, env) != truth(b, env):
            return ", ".join(f"{'' if v else 'not '}{'identity column' if n == IDENT else show(n)[:60]}" for n, v in env.items())
    return None


def entails(pc: tuple, c: T) -> bool:
    a, b = normal(conj(list(pc))), normal(c)
    names = list(dict.fromkeys([*atoms(a), *atoms(b)]))
    if len(names) > 12:
        raise Mismatch("conditions with more than 12 elementary conditions")
    envs = (dict(zip(names, vs)) for vs in itertools.product([False, True], repeat=len(names)))
    return all(truth(b, env) for env in envs if truth(a, env))


# -- data sources


class Source:
    "What a data source does to the records of another."

    def __init__(self, inner: Optional[str], select: Optional[str], convert: Optional[str]) -> None:
        self.inner, self.select, self.convert = inner, select, convert


def own_attr(t: T) -> Optional[str]:
    t = strip(t)
    return t.args[1] if t.op == "attr" and t.args[0] == T("param", ("self",)) else None


def summarise(ctx: Ctx, c: ClassInfo) -> Optional[Source]:
    f = c.find_method("batches")
    r = ctx.run(f, c, inline=lambda g, recv: g.name not in ("batches", "get") and (g.cls is None or g.cls in c.project_mro()))
    who = f"{f.short}: records"
    reads = [e for e in events(r) if e.op == "call" and method_name(e) == "batches"]
    if not reads:
        return None
    try:
        outer = [(l, cs, v) for l, cs, v in leaves(r.yields, strip=strip)]
        if len(outer) != 1 or len(outer[0][0]) != 1 or outer[0][1]:
            raise Mismatch("the batches of the source are not passed on one by one, on every path")
        (src, batch), = outer[0][0]
        inner = own_attr(src.args[1]) if src.op == "call" and method_name(src) == "batches" else None
        if inner is None:
            raise Mismatch("batches are not those of the source")
        rows = layout(outer[0][2])
        if rows.src != batch or rows.guard != TRUE:
            raise Mismatch("records of a batch are not passed on one by one")
        s = Source(inner, *row(ctx, rows.elem, BV, batch, f))
        ctx.ok("source", who, f.loc(), f"selects by {s.select}, converts by {s.convert}")
        return s
    except Mismatch as e:
        ctx.bad("source", who, f.loc(), str(e))
        return None


def row(ctx: Ctx, t: T, record: T, batch: T, f: FuncInfo) -> tuple[Optional[str], Optional[str]]:
    if strip(t) == record:
        return None, None
    record2 = T("bv", ("record",))
    t = subst(t, record, record2)
    lay = layout(t)
    if lay.guard != TRUE:
        raise Mismatch(f"a field is passed on only if {show(lay.guard)[:80]}")
    attr = own_attr(lay.src)
    if attr is not None:
        if lay.elem != T("sub", (record2, BV)):
            raise Mismatch(f"the field selected by position is {show(lay.elem)[:60]}")
        return attr, None
    if lay.src.op == "zip" and len(lay.src.args) == 2:
        kinds = [function_list(x, batch) for x in lay.src.args]
        for k in (0, 1):
            if kinds[k] is None:
                continue
            values = strip(lay.src.args[1 - k])
            select = None
            if values != record2:
                v = layout(values)
                select = own_attr(v.src)
                if select is None or v.guard != TRUE or v.elem != T("sub", (record2, BV)):
                    raise Mismatch(f"the values converted are {show(values)[:60]}")
            converted(ctx, f, lay.elem, T("proj", (BV, k)), T("proj", (BV, 1 - k)))
            return select, kinds[k]
    # functions by position
    raise Mismatch(f"fields are made from {show(lay.src)[:100]}")


def function_list(t: T, batch: T) -> Optional[str]:
    "The transformer list whose functions, for this batch, the sequence holds."
    try:
        l = layout(t)
    except Mismatch:
        return None
    a = own_attr(l.src)
    if a is None or l.guard != TRUE:
        return None
    e = l.elem
    if e.op in ("await",):
        e = e.args[0]
    return a if e.op == "call" and method_name(e) == "get" and e.args[1] == BV else None


def converted(ctx: Ctx, f: FuncInfo, elem: T, fn: T, value: T) -> None:
    "The function is applied to a value that is not missing; a value is passed on unchanged if there is no function; null stays null."
    who = f"{f.short}: conversion"
    seen = False
    no_fn, no_value = T("isnone", (fn,)), T("isnone", (value,))
    for v, pc in cases(elem):
        if v == value:
            ctx.check(entails(pc, disj([no_fn, no_value])), "source", who, f.loc(), f"a value is stored unconverted if {[show(x)[:50] for x in pc]}")
        elif is_const(v, None):
            ctx.check(entails(pc, no_value), "null", who, f.loc(), f"null is stored in place of a value if {[show(x)[:50] for x in pc]}")
        elif v.op == "call" and v.args[1] == fn and [x for _, x in v.args[2]] == [value]:
            seen = True
            ctx.check(entails(pc, neg(no_value)), "null", who, f.loc(), "a missing value is passed to a conversion function")
        else:
            ctx.bad("source", who, f.loc(), f"the value stored is {show(v)[:80]}")
    ctx.check(seen, "source", f"{who} applied", f.loc(), "conversion functions are never applied")


# -- streams of records


class Streams:
    def __init__(self, ctx: Ctx) -> None:
        self.ctx = ctx
        self.sources: dict[ClassInfo, Optional[Source]] = {}
        base = ctx.prog.find_class("DataSource")
        for c in base.all_subclasses():
            f = c.find_method("batches")
            if f is not None and f.cls is not base:
                ctx.count("data sources")
                self.sources[c] = summarise(ctx, c)

    def of_source(self, t: T, pc: tuple = ()) -> Iterator[tuple[Optional[T], Optional[T], tuple]]:
        "Alternatives for the records of a data source: positions selected (None: all), transformers applied (None: none), condition."
        for v, g in cases(t):
            g = tuple(pc) + tuple(g)
            v = strip(v)
            if v.op == "new" and v.args[0] in self.sources:
                s = self.sources[v.args[0]]
                attrs = attributes(self.ctx, v)
                if s is None:
                    # a root source: whatever it was given
                    yield None, None, g
                    continue
                for sel, conv, g2 in self.of_source(attrs[s.inner], g):
                    if sel is not None or conv is not None:
                        raise Mismatch("records pass through more than one selection")
                    yield attrs[s.select] if s.select else None, attrs[s.convert] if s.convert else None, g2
            elif v.op == "param" or v.op == "call" and method_name(v) == "to_data_source":
                yield None, None, g
            else:
                raise Mismatch(f"records come from {show(v)[:80]}")


def attributes(ctx: Ctx, new: T) -> dict[str, T]:
    "Attributes of an object given the arguments of its construction."
    c: ClassInfo = new.args[0]
    f = c.find_method("__init__")
    out: dict[str, T] = {}
    args = dict(new.args[1])
    if f is None:
        return args
    r = ctx.interp(lambda g, recv: g.name == "__init__").run(f, c)
    for e in events(r):
        if e.op == "setattr" and e.args[0] == T("param", ("self",)):
            v = e.args[2]
            for n, a in args.items():
                v = subst(v, T("param", (n,)), a)
            out[e.args[1]] = v
    return {**args, **out}


# -- statements


def omissions(ctx: Ctx) -> dict[tuple[str, str], bool]:
    "For each dialect and operation, whether the statement leaves out identity columns."
    out: dict[tuple[str, str], bool] = {}
    for c in hierarchy(ctx.prog, "BaseGenerator"):
        d = dialect_of(c)
        if not d:
            continue
        g = c.find_method("placeholder")
        if g is None or all(o.kind == "raise" for o in ctx.run(g, c).outcomes):
            ctx.count("dialects without statements")
            continue
        for op in OPS:
            f = c.find_method(op)
            if f is None:
                continue
            ctx.count("statements")
            r = ctx.run(f, c, inline=statement_inline)
            if all(o.kind == "raise" for o in r.outcomes):
                continue
            found: set[Optional[bool]] = set()
            for v in variants(r.value):
                for p in v.parts:
                    if isinstance(p, Rep):
                        s = shape(p)
                        if s.src is not None and not any(x.op == "call" and method_name(x) == "get_columns" for x in walk(s.src)):
                            continue
                        if not any(isinstance(x, Hole) and T("attr", (T("bv", ("col",)), "name")) in set(walk(x.term)) for x in s.elem):
                            found.add(drops(s))
            if len(found) == 1 and None not in found:
                out[d, op] = bool(found.pop())
                ctx.ok("align", f"{d}: {op}: placeholders", f.loc(), f"leaves out identity columns: {out[d, op]}")
            else:
                ctx.bad("align", f"{d}: {op}: placeholders", f.loc(), "which columns have a placeholder depends on more than being an identity column")
    return out


def drops(s) -> Optional[bool]:
    if s.problem or s.src is None or not any(x.op == "call" and method_name(x) == "get_columns" for x in walk(s.src)):
        return None
    if not s.conds:
        return False
    ident = T("attr", (T("bv", ("col",)), "identity"))
    return True if s.conds == {(ident, False)} else None


def columns(t: T, tables: set[T]) -> Layout:
    "Layout of the names of the columns in a list of columns or their names."
    if t.op == "call" and method_name(t) == "get_columns":
        tables.add(t.args[1])
        order = dict(t.args[2]).get("field_names") or (t.args[2][0][1] if t.args[2] else const(None))
        if is_const(order, None):
            return Layout(T("attr", (t.args[1], "columns")), TRUE, T("attr", (BV, "name")))
        if order.op == "phi":
            raise Mismatch("columns are taken from the table in some cases and from the fields in others")
        l = layout(order)
        return Layout(l.src, l.guard, bare(l.elem))
    l = layout(t)
    src = strip(l.src)
    if src.op == "call" and method_name(src) == "get_columns":
        o = columns(src, tables)
        ident = T("attr", (BV, "identity"))
        g = rewrite(l.guard, lambda x: IDENT if x == ident else None)
        if bare(l.elem) not in (BV, T("attr", (BV, "name"))):
            raise Mismatch(f"the column listed is {show(l.elem)[:60]}")
        if any(x == BV for x in walk(g)):
            raise Mismatch(f"a column is listed only if {show(g)[:60]}")
        return Layout(o.src, conj([o.guard, g]), o.elem)
    return Layout(l.src, l.guard, bare(l.elem))


# -- sinks


class Sink:
    def __init__(self, e: T, kind: str, records: T, cols: Optional[T] = None, op: str = "", table: Optional[T] = None, order: Optional[T] = None) -> None:
        self.e, self.kind, self.records, self.cols, self.op, self.table, self.order = e, kind, records, cols, op, table, order


def inline(c: ClassInfo):
    def policy(g: FuncInfo, recv) -> bool:
        if g.name in OPAQUE or g.name.startswith("__"):
            return False
        if g.parent is not None:
            return True
        if g.cls is None:
            return g.module.name.endswith(".base") or g.module is c.module or g.name.startswith("_")
        return any(k.name in ("BaseContext", "BaseGenerator") for k in g.cls.project_mro())

    return policy


def argument(e: T, name: str, index: int) -> Optional[T]:
    for k, v in e.args[2]:
        if k == name or k == str(index):
            return v
    return None


def check(ctx: Ctx) -> None:
    prog = ctx.prog
    streams = Streams(ctx)
    ctx.minimum("data sources", 4)
    left_out = omissions(ctx)
    objects = {}
    for c in hierarchy(prog, "BaseGenerator"):
        if dialect_of(c):
            objects[c] = records_of_objects(ctx, c)
    for c in hierarchy(prog, "BaseContext"):
        d = dialect_of(c)
        if d:
            gens = [g for g in objects if dialect_of(g) == d]
            for name in LOADS:
                f = c.find_method(name)
                if f is not None:
                    load(ctx, c, f, d, streams, left_out, {g: objects[g] for g in gens})
            sizes(ctx, c)
    ctx.minimum("loading operations", 16)
    for c in hierarchy(prog, "BaseContext"):
        if "_get_transformer" in c.methods:
            scalar(ctx, c, c.methods["_get_transformer"])
    for c in prog.find_class("RecordTransformer").all_subclasses():
        passes_on(ctx, c)
    for c in hierarchy(prog, "BaseGenerator"):
        for name in ("get_value_transformer", "get_field_extractor"):
            f = c.methods.get(name)
            if f is not None:
                conversion(ctx, c, f)
    ctx.minimum("conversions", 8)
    binding(ctx)


# -- data-class objects


def records_of_objects(ctx: Ctx, c: ClassInfo) -> Optional[Layout]:
    result: Optional[Layout] = None
    for name in ("get_dataclasses_as_records", "get_dataclass_as_record"):
        f = c.find_method(name)
        who = f"{c.name}.{name}"
        ctx.count("object records")

        def policy(g: FuncInfo, recv) -> bool:
            if g.name in ("get_qualified_id", "get_table", "get_field_properties", "get_value_transformer") or g.name.startswith("__") or g.name.startswith("is_"):
                return False
            return g.parent is not None or g.cls is None and g.name.startswith("_") or g.cls is not None and g.cls in c.project_mro()

        r = ctx.run(f, c, inline=policy)
        try:
            t = strip(r.value)
            if name == "get_dataclasses_as_records":
                rows = layout(t)
                if rows.src != T("param", ("items",)) or rows.guard != TRUE:
                    raise Mismatch("objects are not converted one by one")
                t = subst(rows.elem, BV, T("bv", ("object",)))
                item = T("bv", ("object",))
            else:
                item = T("param", ("item",))
            l = layout(t)
            if l.src != T("fields", (T("param", ("entity_type",)),)):
                raise Mismatch(f"fields are those of {show(l.src)[:60]}")
            name_t = T("attr", (BV, "name"))
            value = T("call", ("getattr", None, (("0", item), ("1", name_t))))
            for v, pc in cases(l.elem):
                reads = [x for x in walk(v) if x.op == "call" and x.args[0] == "getattr"] + [x for x in walk(v) if x.op == "attr" and x.args[0] == item]
                ctx.check(is_const(v, None) or bool(reads) and all(same_read(x, item, name_t) for x in reads), "own", f"{who}: field", f.loc(), f"the value of a field is {show(v)[:80]}")
                facts = implied(pc)
                missing = [(a, p) for a, p in facts if a.op == "isnone" and same_read(a.args[0], item, name_t)]
                if is_const(v, None):
                    ctx.check(any(p for _, p in missing), "null", f"{who}: null", f.loc(), f"null is stored in place of a value if {[show(x)[:50] for x in pc]}")
                elif not same_read(v, item, name_t):
                    ctx.check(any(not p for _, p in missing), "null", f"{who}: null", f.loc(), f"a missing value is converted: {show(v)[:60]}")
                # the conversion is selected by the type and column of the same field
                for p in pc:
                    for x in walk(p):
                        if x.op == "bv" and x not in (BV, item):
                            ctx.bad("own", f"{who}: type", f.loc(), f"the conversion depends on another field: {show(p)[:80]}")
            tables: set[T] = set()
            g = conditions(l.guard, name_t, tables)
            if result is not None and (difference(result.guard, g) or result.src != l.src):
                raise Mismatch("a single object is converted unlike several")
            result = Layout(l.src, g, name_t)
            ctx.ok("own", f"{who}: fields", f.loc(), repr(result))
        except Mismatch as e:
            ctx.bad("own", f"{who}: fields", f.loc(), str(e))
            return None
    return result


def same_read(x: T, item: T, name: T) -> bool:
    return x.op == "call" and x.args[0] == "getattr" and [v for _, v in x.args[2]][:2] == [item, name]


# -- loading operations


def load(ctx: Ctx, c: ClassInfo, f: FuncInfo, d: str, streams: Streams, left_out: dict, objects: dict) -> None:
    r = ctx.run(f, c, inline=inline(c))
    who = f"{c.name}.{f.name}"
    found = list(sinks(ctx, r))
    if not found:
        if r.raises and not any(True for o in r.outcomes if o.kind != "raise"):
            ctx.count("unsupported operations")
            return
        ctx.bad("align", f"{who}: sink", f.loc(), "nothing is written")
        return
    ctx.count("loading operations")
    for s in found:
        try:
            tables: set[T] = set()
            if s.records.op == "problem":
                raise Mismatch(s.records.args[0])
            if s.kind == "statement":
                if d not in {k for k, _ in left_out}:
                    ctx.count("unsupported operations")
                    continue
                if (d, s.op) not in left_out:
                    raise Mismatch(f"columns of the statement are not known: {s.op}")
                cols = columns(T("call", (".get_columns", s.table, (("field_names", s.order),))), tables)
                cols = Layout(cols.src, conj([cols.guard] + ([neg(IDENT)] if left_out[d, s.op] else [])), cols.elem)
            else:
                cols = columns(s.cols, tables)
            guard = conditions(cols.guard, cols.elem, tables)
            align(ctx, who, s, Layout(cols.src, guard, cols.elem), streams, objects, tables)
            if s.kind == "statement" and method_name(s.e) == "_execute_typed":
                typed(ctx, c, who, s, left_out[d, s.op], guard)
        except Mismatch as e:
            ctx.bad("align", f"{who}: {s.kind}", s.e.loc or f.loc(), str(e))


def sinks(ctx: Ctx, r) -> Iterator[Sink]:
    evs = list(events(r))
    for e in evs:
        if e.op != "call":
            continue
        m = method_name(e)
        if m in SINKS:
            st = argument(e, "statement", 0)
            rec = argument(e, "source", 1) or argument(e, "records", 1)
            if st is None or rec is None:
                continue
            for v, pc in cases(st):
                if v.op == "call" and method_name(v) in OPS:
                    yield Sink(e, "statement", rec, op=method_name(v), table=argument(v, "table", 0), order=argument(v, "order", 1) or const(None))
        elif m == "copy_records_to_table":
            yield Sink(e, "bulk copy", argument(e, "records", 1), argument(e, "columns", 2))
        elif any(k == "stream" for k, _ in e.args[2]):
            try:
                yield stream_sink(ctx, e, evs)
            except Mismatch as m:
                yield Sink(e, "copy stream", T("problem", (str(m),)))


def stream_sink(ctx: Ctx, e: T, evs: list[T]) -> Sink:
    text, stream = e.args[2][0][1], dict(e.args[2])["stream"]
    cols = None
    for v in variants(text):
        for p in v.parts:
            if isinstance(p, Rep):
                cols = p.seq
    buffers = [x.args[1] for x in evs if x.op == "call" and method_name(x) == "write" and x.args[1] in set(walk(stream))]
    writes = [x for x in evs if x.op == "call" and method_name(x) == "write" and x.args[1] in buffers]
    records = None
    for w in writes:
        data = w.args[2][0][1]
        for x in walk(data):
            if x.op == "seq" or x.op == "join" or x.op == "call" and method_name(x) == "join":
                seq = x if x.op == "seq" else x.args[1] if x.op == "join" else x.args[2][0][1]
                l = layout(seq)
                loops = [p for p in w.pc if p.op == "each"]
                own = [p for p in loops if p.args[1] == l.src]
                if not own or l.guard != TRUE:
                    raise Mismatch(f"values written to the stream are {show(seq)[:80]}")
                if [p for p in w.pc if p.op != "each" and any(q == own[0].args[1] for q in walk(p))]:
                    raise Mismatch("a record is written to the stream only on a condition")
                records = T("seq", ("list", (T("for", (own[0].args[0], own[0].args[1], (T("item", (own[0].args[1],)),))),)))
                stream_value(ctx, w, l.elem)
                break
    if cols is None or records is None:
        raise AnalysisError("the columns or records of a copy stream are not recognised")
    return Sink(e, "copy stream", records, cols)


def stream_value(ctx: Ctx, w: T, elem: T) -> None:
    for v, pc in cases(elem):
        facts = implied(pc)
        marker = v.op == "const"
        if marker:
            ctx.check((T("isnone", (BV,)), True) in facts, "null", "copy stream: null", w.loc, f"a value is replaced by {show(v)} if {[show(x)[:40] for x in pc]}")
        else:
            ctx.check((T("isnone", (BV,)), False) in facts, "null", "copy stream: null", w.loc, "a missing value is written as text")
            ctx.check(any(x.op in ("call", "strop") and "replace" in str(x.args[0]) or x.op == "call" and x.args[0] in ("re.sub",) for x in walk(v)), "delimiter", "copy stream: delimiter", w.loc, "a delimiter in a value is not escaped: what follows is stored in the next column")


def records_layout(ctx: Ctx, s: Sink, streams: Streams, objects: dict, cols: Layout) -> Iterator[tuple[Layout, str]]:
    "Alternatives for the layout of the records that arrive at a sink."
    t = strip(s.records)
    each = {p.args[1]: p.args[0] for p in s.e.pc if p.op == "each"}
    for _ in range(4):
        if t.op == "seq" and len(t.args[1]) == 1 and t.args[1][0].op == "for" and t.args[1][0].args[2] == (T("item", (t.args[1][0].args[1],)),):
            t = strip(t.args[1][0].args[0])
        elif t in each:
            t = strip(each[t])
    if t.op == "call" and method_name(t) == "batches":
        t = t.args[1]
    if t.op == "call" and method_name(t) == "get_dataclasses_as_records":
        entity, skip = argument(t, "entity_type", 0), argument(t, "skip_identity", 2) or const(False)
        for g, l in objects.items():
            if l is None:
                raise Mismatch("records of objects are not understood")
            fix = lambda x: rewrite(x, lambda y: {T("param", ("entity_type",)): entity, T("param", ("skip_identity",)): skip}.get(y))  # noqa: E731
            yield Layout(fix(l.src), fix(l.guard), l.elem), "objects"
        return
    for sel, conv, pc in streams.of_source(t):
        if conv is not None:
            l = layout(conv)
            e = l.elem
            ok = e.op == "call" and method_name(e) == "_get_transformer"
            a = dict(e.args[2]) if ok else {}
            if not ok:
                raise Mismatch(f"the conversion of a field is {show(e)[:60]}")
            fn, ft = a.get("field_name"), a.get("field_type")
            comps = components(l.src)
            tc = comps.get(ft) if ft is not None else None
            if bare(fn) != cols.elem or tc is None or not same_param(tc, "field_types"):
                raise Mismatch(f"the conversion of a field is made for name {show(fn)[:40]} and type {show(ft)[:40]}")
            cl = Layout(l.src, l.guard, T("pos", (l.src, 0)))
            if sel is None:
                whole(cols, pc, cl)
                yield Layout(cols.src, cols.guard, T("pos", (cols.src, const(0)))), "conversion of all fields"
                yield Layout(cl.src, cl.guard, T("pos", (cols.src, const(0)))), "conversion of all fields"
                continue
            yield Layout(cl.src, cl.guard, T("pos", (cl.src, const(0)))), "conversion of selected fields"
        if sel is not None:
            l = layout(sel)
            yield l, "selected fields"
        else:
            whole(cols, pc, None)
            yield Layout(cols.src, cols.guard, T("pos", (cols.src, const(0)))), "all fields"


def whole(cols: Layout, pc: tuple, conv: Optional[Layout]) -> None:
    "Complete records are used only if every field is selected."
    for p in pc:
        for q in conj_parts(p):
            if q.op == "cmp" and q.args[0] == "==":
                for a, b in ((q.args[1], q.args[2]), (q.args[2], q.args[1])):
                    if a.op == "len" and same_param(a.args[0], "field_types") and b.op == "len":
                        l = layout(b.args[0])
                        tables: set[T] = set()
                        if l.src == cols.src and difference(conditions(l.guard, cols.elem, tables), cols.guard) is None:
                            return
    raise Mismatch("complete records are used without a test that every field is selected")


def components(src: T) -> dict[T, T]:
    if src.op == "zip":
        return {T("proj", (BV, i)): a for i, a in enumerate(src.args)}
    return {BV: src}


def same_param(t: T, name: str) -> bool:
    return strip(t) == T("param", (name,))


def position_of(t: T, src: T) -> bool:
    return t.op == "pos" and t.args[0] == src and (t.args[1] == 0 or isinstance(t.args[1], T) and is_const(t.args[1], 0))


def align(ctx: Ctx, who: str, s: Sink, cols: Layout, streams: Streams, objects: dict, tables: set[T]) -> None:
    loc = s.e.loc
    for rec, what in records_layout(ctx, s, streams, objects, cols):
        ctx.count("pairs of record and column list")
        construct = f"{who}: {s.kind}: {what}"
        if rec.src != cols.src:
            ctx.bad("align", construct, loc, f"the record has {show(rec.src)[:100]}, the columns are those of {show(cols.src)[:100]}")
            continue
        d = difference(conditions(rec.guard, cols.elem, tables), cols.guard)
        if d is not None:
            ctx.bad("align", construct, loc, f"a field is in only one of record and column list if {d}")
            continue
        if what == "objects":
            ok = bare(rec.elem) == bare(cols.elem)
        else:
            comp = components(cols.src).get(bare(cols.elem))
            ok = position_of(rec.elem, cols.src) and comp is not None and names(comp)
        ctx.check(ok, "align", construct, loc, f"the value is that of {show(rec.elem)[:60]}, the column is {show(cols.elem)[:60]}")
    ctx.check(len({canonical_table(t) for t in tables}) <= 1, "align", f"{who}: {s.kind}: table", loc, f"several tables are involved: {[show(t)[:60] for t in tables]}")


def canonical_table(t: T) -> T:
    if t.op == "call" and method_name(t) == "get_table":
        for x in walk(t):
            if x.op == "param" and x.args[0] in ("table", "entity_type"):
                return T("param", ("table",))
    return t


def names(t: T) -> bool:
    "The names given by the caller, or else those of the columns of the table."
    for v, pc in cases(t):
        v = strip(v)
        while v.op == "seq" and len(v.args[1]) == 1:
            i = v.args[1][0]
            if i.op == "for" and i.args[2] == (T("item", (i.args[1],)),) or i.op == "splice":
                v = strip(i.args[0])
            else:
                break
        if v == T("param", ("field_names",)):
            continue
        if (T("isnone", (T("param", ("field_names",)),)), True) in implied(pc):
            if v.op == "attr" and v.args[1] == "columns":
                continue
            if v.op == "call" and method_name(v) == "keys" and any(x.op == "attr" and x.args[1] == "columns" for x in walk(v)):
                continue
        return False
    return True


# -- type information


def typed(ctx: Ctx, c: ClassInfo, who: str, s: Sink, drops_identity: bool, guard: T) -> None:
    f = c.find_method("_execute_typed")
    table, order = argument(s.e, "table", 2), argument(s.e, "order", 3) or const(None)
    ctx.check(table == s.table, "typed", f"{who}: table", s.e.loc, f"type information is that of {show(table)[:60] if table is not None else None}")
    ctx.check(order == s.order, "typed", f"{who}: order", s.e.loc, "type information is not for the columns of the statement")
    if drops_identity and f is not None and f.cls is not None and f.cls.name != "BaseContext":
        l = columns(T("call", (".get_columns", s.table, (("field_names", s.order),))), set())
        d = difference(conditions(l.guard, l.elem, set()), guard)
        ctx.check(d is None, "typed", f"{who}: identity", s.e.loc, f"there is type information for a column without a placeholder if {d}")


def sizes(ctx: Ctx, c: ClassInfo) -> None:
    f = c.methods.get("_execute_typed")
    if f is None:
        return
    r = ctx.run(f, c, inline=lambda g, recv: g.cls is not None and g.cls in c.project_mro() and g.name != "batches")
    done = False
    for e in events(r):
        if e.op == "call" and method_name(e) == "setinputsizes":
            done = True
            for t in [v for _, v in e.args[2]]:
                if t.op == "star":
                    t = t.args[0]
                try:
                    l = layout(t)
                    src = strip(l.src)
                    ok = src.op == "call" and method_name(src) == "get_columns" and src.args[1] == T("param", ("table",)) and [v for _, v in src.args[2]] == [T("param", ("order",))]
                    ctx.check(ok and l.guard == TRUE, "typed", f"{c.name}._execute_typed: sizes", e.loc, f"type information is that of {l}")
                    ctx.check(any(x == T("attr", (BV, "data_type")) for x in walk(l.elem)), "typed", f"{c.name}._execute_typed: type", e.loc, f"type information is {show(l.elem)[:60]}")
                except Mismatch as m:
                    ctx.bad("typed", f"{c.name}._execute_typed: sizes", e.loc, str(m))
    ctx.count("typed executions", int(done))


# -- conversions


def scalar(ctx: Ctx, c: ClassInfo, f: FuncInfo) -> None:
    "The function of a scalar transformer is that of the generator for the column of the field."
    r = ctx.run(f, c, inline=lambda g, recv: g.name.startswith("_") and not g.name.startswith("__"))
    for v, pc in [(v2, p + q) for v1, p in r.returns for v2, q in cases(v1)]:
        if v.op == "new" and v.args[0].name == "ScalarTransformer":
            fn = dict(v.args[1]).get("fn")
            for g, q in cases(fn):
                ok = g.op == "call" and method_name(g) == "get_value_transformer"
                if ok:
                    col, ft = argument(g, "column", 0), argument(g, "field_type", 1)
                    l = column_lookup(col)
                    ok = l is not None and l == (T("param", ("table",)), T("param", ("field_name",))) and ft == T("param", ("field_type",))
                ctx.check(ok, "own", f"{f.short}: scalar", v.loc or f.loc(), f"the conversion of a field is {show(g)[:100]}")
        elif is_const(v, None):
            ctx.bad("own", f"{f.short}: scalar", f.loc(), "a field has no transformer")


def passes_on(ctx: Ctx, c: ClassInfo) -> None:
    f = c.methods.get("get")
    if f is None or f.is_abstract or c.name != "ScalarTransformer":
        return
    r = ctx.run(f, c)
    ok = strip(r.value) == T("attr", (T("param", ("self",)), "fn"))
    a = attributes(ctx, T("new", (c, (("fn", T("param", ("the function",))),))))
    ctx.check(ok and a.get("fn") == T("param", ("the function",)), "own", f"{f.short}: function", f.loc(), f"the function used is {show(r.value)[:60]}")


def conversion(ctx: Ctx, c: ClassInfo, f: FuncInfo) -> None:
    "A function made for a field reads only the value of that field."
    ctx.count("conversions")
    extractor = f.name == "get_field_extractor"
    r = ctx.run(f, c, inline=lambda g, recv: g.parent is not None or g.name.startswith("_") and not g.name.startswith("__"))
    for v, pc in [(v2, p + q) for v1, p in r.returns for v2, q in cases(v1)]:
        if is_const(v, None):
            ctx.check(not extractor, "own", f"{f.short}: function", f.loc(), "no function for a field")
            continue
        if v.op == "call" and method_name(v) == f.name:
            # the implementation of the base class, for the same field
            bad = [k for k, x in v.args[2] if x != T("param", (k,)) and x != T("param", (f.args.args[1 + int(k)].arg if k.isdigit() else k,))]
            ctx.check(not bad, "own", f"{f.short}: delegation", v.loc or f.loc(), f"the base implementation is asked about another field: {show(v)[:80]}")
            continue
        if v.op not in ("closure", "func"):
            continue
        g: FuncInfo = v.args[0]
        params = [a.arg for a in g.args.args]
        b = ctx.interp(lambda h, recv: h.name.startswith("_") and not h.name.startswith("__")).run(g, None, closure=closure_env(v) if v.op == "closure" else None)
        own = T("param", (params[0],)) if params else None
        if extractor:
            reads = [x for x in walk(b.value) if x.op == "call" and x.args[0] == "getattr"] + [x for x in walk(b.value) if x.op == "attr" and x.args[0] == own]
            ok = bool(reads) and all(same_read(x, own, T("param", ("field_name",))) for x in reads)
        else:
            ok = any(x == own for x in walk(b.value))
        ctx.check(ok, "own", f"{f.short}: value", v.loc or f.loc(), f"the function returns {show(b.value)[:80]}")


# -- late binding


CONSUMERS = {"sorted", "min", "max", "any", "all", "sum", "sort", "map", "filter", "reduce"}


def binding(ctx: Ctx) -> None:
    for f in ctx.prog.functions():
        m = f.module.name
        if not (m.endswith(".base") or ".dialect." in m):
            continue
        if f.parent is not None:
            continue
        loops(ctx, f, f.node)
    ctx.minimum("function objects", 15)


def loops(ctx: Ctx, f: FuncInfo, node: ast.AST) -> None:
    parent: dict[ast.AST, ast.AST] = {ch: n for n in ast.walk(node) for ch in ast.iter_child_nodes(n)}
    for n in ast.walk(node):
        if not isinstance(n, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef)) or n is node:
            continue
        ctx.count("function objects")
        bound = {a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
        bound |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        body = n.body if isinstance(n.body, list) else [n.body]
        free = {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} - bound
        changed: set[str] = set()
        x: ast.AST = n
        if consumed(n, parent):
            ctx.ok("binding", f"{f.short}: function object", f.loc(n), "called at once")
            continue
        while x in parent and x is not node:
            x = parent[x]
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                # variables of an outer function change only by that function itself
                break
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                changed |= {y.id for g in x.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
            elif isinstance(x, (ast.For, ast.AsyncFor, ast.While)):
                changed |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        own = x if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) else node
        later = {y.id for y in ast.walk(own) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.lineno > (n.end_lineno or n.lineno) and scope(y, parent) is own and not exclusive(n, y, parent)}
        bad = free & (changed | later)
        ctx.check(not bad, "binding", f"{f.short}: function object", f.loc(n), f"the function refers to {', '.join(sorted(bad))}, which is assigned again before the function is called")


def scope(n: ast.AST, parent: dict) -> ast.AST:
    while n in parent:
        n = parent[n]
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return n
    return n


def exclusive(a: ast.AST, b: ast.AST, parent: dict) -> bool:
    "Whether the two are in different branches, or the function is returned."
    x = a
    while x in parent:
        if isinstance(x, ast.Return):
            return True
        p = parent[x]
        if isinstance(p, ast.If):
            side = x in p.body
            y = b
            while y in parent and parent[y] is not p:
                y = parent[y]
            if y in parent and y is not p.test and (y in p.body) != side:
                return True
        x = p
    return False


def consumed(n: ast.AST, parent: dict) -> bool:
    p = parent.get(n)
    if isinstance(p, ast.keyword):
        p = parent.get(p)
    if isinstance(p, ast.Call):
        if p.func is n:
            return True
        name = p.func.id if isinstance(p.func, ast.Name) else p.func.attr if isinstance(p.func, ast.Attribute) else ""
        if name in ("map", "filter"):
            q = parent.get(p)
            return isinstance(q, ast.Call) or isinstance(q, (ast.For, ast.AsyncFor, ast.comprehension, ast.Starred))
        return name in CONSUMERS
    return False
