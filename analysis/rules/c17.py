"""
Result-shape rule. The text of every query made through a context is spelled out (all variants, per dialect and receiver class)
and its SELECT list parsed. The way a dialect decodes rows is derived from its `_query_all`: by mapping (a data-class is built
from the items of the row), by attribute, or by position, and it must be one the rows of the driver support. A query decoded
into a data-class by mapping selects exactly the fields of the class, by attribute at least the fields, by position the fields
in their order; a query decoded into a tuple or a scalar selects as many columns. Each selected expression reads the catalog
column that its field stands for, from the side of the join (owning or referenced object) that the field describes, with the
right polarity for Boolean fields; consumers use only fields that the record has and pass schema and object names in the places
they belong to.
"""

from __future__ import annotations

from typing import Iterator, Optional

from ..catalog import Graph
from ..common import method_name
from ..framework import AnalysisError, Ctx, events
from ..interp import Result
from ..program import ClassInfo, FuncInfo
from ..queries import DIALECTS, Query, context_class, queries
from ..select import Select, Tok, Unparsed, columns_in, tokens
from ..sigs import constructor
from ..terms import closure_env, T, show, subst, walk

ASSUMPTIONS = [
    "rows are mappings and sequences in asyncpg, sequences (or dictionaries with a DictCursor) in aiomysql, attribute-accessible sequences in pyodbc, and plain sequences in oracledb, redshift_connector and aiotrino",
    "asyncpg and redshift_connector fold unquoted names to lower case; MySQL 8 reports catalog columns in upper case unless they have an alias",
    "the meaning of catalog columns is that in the documentation of each database (table ROLES)",
]

ROWS = {"postgresql": {"mapping", "sequence"}, "redshift": {"sequence"}, "mysql": {"sequence"}, "mssql": {"attribute", "sequence"}, "oracle": {"sequence"}, "trino": {"sequence"}}

# field of a record -> catalog columns that hold it
ROLES: dict[str, set[str]] = {
    "column_name": {"column_name", "attname", "name"},
    "nullable": {"is_nullable", "nullable", "attnotnull"},
    "is_nullable": {"is_nullable", "nullable", "attnotnull"},
    "member_name": {"attname"},
    "type_schema": {"nspname"},
    "type_name": {"typname"},
    "type_def": {"atttypid", "atttypmod"},
    "is_array": {"attndims"},
    "is_identity": {"attidentity", "identity_column", "is_identity"},
    "default_value": {"adbin"},
    "description": {"description"},
    "constraint_type": {"contype", "constraint_type"},
    "constraint_name": {"conname", "constraint_name"},
    "source_column": {"attname", "column_name"},
    "target_namespace": {"nspname"},
    "target_table": {"relname", "table_name"},
    "target_column": {"attname", "column_name"},
    "enum_name": {"typname"},
    "enum_value": {"enumlabel"},
}
for name in ("data_type", "column_default", "character_maximum_length", "numeric_precision", "numeric_scale", "datetime_precision", "column_type", "extra", "column_comment", "table_schema", "table_name", "ordinal_position",
             "data_type_owner", "data_length", "data_precision", "data_scale", "data_default", "char_length", "comments"):
    ROLES[name] = {name}
for name in ("constraint_name", "table_schema", "table_name", "column_name", "ordinal_position"):
    ROLES["fk_" + name] = {name}
    ROLES["uq_" + name] = {name, "referenced_" + name}
SOURCE = {"fk_constraint_name", "fk_table_schema", "fk_table_name", "fk_column_name", "fk_ordinal_position", "source_column", "constraint_name", "constraint_type", "column_name", "member_name"}
TARGET = {"type_schema", "uq_table_schema", "uq_table_name", "uq_column_name", "uq_constraint_name", "target_namespace", "target_table", "target_column"}
# Boolean catalog columns: value -> truth of the field
FLAGS: dict[tuple[str, str], dict[object, bool]] = {
    ("nullable", "is_nullable"): {"YES": True, "NO": False},
    ("is_nullable", "is_nullable"): {"YES": True, "NO": False},
    ("is_nullable", "nullable"): {"Y": True, "N": False},
    ("nullable", "nullable"): {"Y": True, "N": False},
    ("is_nullable", "attnotnull"): {False: True, True: False},
    ("is_array", "attndims"): {0: False, 1: True, 2: True},
    ("is_identity", "attidentity"): {"a": True, "d": True, "": False},
    ("is_identity", "identity_column"): {"YES": True, "NO": False},
}


# -- decoding of rows


def fields_source(t: T) -> bool:
    "The names of the fields of the signature."
    s = show(t)
    return "signature" in s and ("__dataclass_fields__" in s or "fields" in s)


class Decoder:
    def __init__(self, form: str, event: T, why: str = "") -> None:
        self.form, self.event, self.why = form, event, why


def classify(e: T, pc: tuple) -> Decoder:
    args = e.args[2]
    if len(args) == 1 and args[0][0] == "**":
        m = args[0][1]
        if m.op in ("bv", "elem"):
            return Decoder("mapping", e)
        while m.op in ("copy", "dictof") or m.op == "call" and method_name(m) == "dict" and len(m.args[2]) == 1:
            m = m.args[0] if m.op != "call" else m.args[2][0][1]
            if m.op == "bv":
                return Decoder("mapping", e)
            if m.op == "call" and method_name(m) == "items" and m.args[1] is not None:
                return Decoder("mapping" if m.args[1].op == "bv" else record_form(m.args[1]), e)
            if m.op == "zip":
                return Decoder(record_form(T("call", ("dict", None, (("0", m),)))), e)
        if m.op == "zip":
            return Decoder(record_form(T("call", ("dict", None, (("0", m),)))), e)
        if m.op == "seq" and len(m.args[1]) == 1 and m.args[1][0].op == "for":
            src, bv, items = m.args[1][0].args[:3]
            if len(items) == 1 and items[0].op == "kv":
                k, v = items[0].args
                if src.op == "call" and method_name(src) == "items" and src.args[1] is not None and k == T("proj", (bv, 0)) and v == T("proj", (bv, 1)):
                    return Decoder(record_form(src.args[1]), e)
                if fields_source(src) and (k == bv or k == T("attr", (bv, "name"))) and v.op in ("call", "getattr", "sub"):
                    if v.op == "call" and method_name(v) == "__getattribute__" and v.args[2] == (("0", k),):
                        return Decoder("attribute", e)
                    if v.op == "call" and method_name(v) == "getattr" and len(v.args[2]) == 2 and v.args[2][1][1] == k:
                        return Decoder("attribute", e)
                    if v.op == "getattr" and v.args[1] == k:
                        return Decoder("attribute", e)
                    if v.op == "sub" and v.args[1] == k:
                        return Decoder("subset", e)
        return Decoder("unknown", e, f"fields are taken from {show(m)[:120]}")
    if len(args) == 1 and args[0][1].op == "star":
        x = args[0][1].args[0]
        if x.op in ("param", "bv"):
            return Decoder("positional", e)
        return Decoder("unknown", e, f"fields are taken from {show(x)[:120]}")
    return Decoder("unknown", e, f"fields are taken from {', '.join(show(a[1])[:60] for a in args)}")


def record_form(row: T) -> str:
    if row.op == "bv":
        return "mapping"
    if row.op == "call" and method_name(row) == "dict" and len(row.args[2]) == 1 and row.args[2][0][1].op == "zip":
        z = row.args[2][0][1].args
        z = z[0] if len(z) == 1 and isinstance(z[0], tuple) else z
        if len(z) == 2 and z[1].op == "bv" and "description" in show(z[0]):
            names = z[0]
            if names.op == "seq" and len(names.args[1]) == 1 and names.args[1][0].op == "for":
                src, bv, items = names.args[1][0].args[:3]
                if src.op == "attr" and src.args[1] == "description" and len(items) == 1 and items[0].args[0] in (T("sub", (bv, T("const", (0,)))), T("proj", (bv, 0))):
                    return "named"
    return "unknown"


def decoders(ctx: Ctx, dialect: str) -> dict[str, Optional[Decoder]]:
    c = context_class(ctx, dialect)
    f = c.find_method("_query_all") if c else None
    if c is None or f is None:
        raise AnalysisError(f"no query operation in {dialect}")
    it = ctx.interp(lambda g, recv: g.cls is None or g.cls is not None and g.cls.is_subclass_of(c) and g.name != "native_connection" or g.parent is not None)
    r = it.run(f, c)
    ctx.analysed(f)
    sig = T("param", (f.params[1] if hasattr(f, "params") else "signature",))
    out: dict[str, Optional[Decoder]] = {}
    found: list[Decoder] = []
    for e in events(r):
        if e.op == "call" and e.args[0] == "()" and e.args[1] is not None and e.args[1].op == "param" and e.args[1].args[0] == "signature":
            found.append(classify(e, e.pc))
        if e.op == "setattr" and e.args[1] == "rowfactory":
            v = e.args[2]
            if v.op == "param":
                found.append(Decoder("positional", e))
            elif v.op in ("closure", "func"):
                b = it.run(v.args[0], None, closure=closure_env(v))
                t = b.value
                if t is not None and t.op == "call" and t.args[0] == "()" and t.args[1].op == "param":
                    found.append(classify(t, ()))
                else:
                    found.append(Decoder("unknown", e, f"rows are made by {show(t)[:100]}"))
    loc = f.loc()
    if not found:
        # not supported: such a signature is rejected
        for value, pc in r.returns:
            ok = any(p.op == "not" and p.args[0].op == "call" and method_name(p.args[0]) == "is_dataclass_type" for p in pc)
            ctx.check(ok, "decoder", f"{c.name}: data-class", loc, "no decoding of rows into data-classes was recognised")
        out["dataclass"] = None
    else:
        forms = {d.form for d in found}
        d = found[0]
        if len(forms) != 1:
            ctx.bad("decoder", f"{c.name}: data-class", loc, f"rows are decoded in different ways: {sorted(forms)}")
        out["dataclass"] = d
        needs = {"mapping": "mapping", "subset": "mapping", "attribute": "attribute", "positional": "sequence", "named": "sequence"}.get(d.form)
        have = set(ROWS[dialect])
        if any(x.op == "extern" and str(x.args[0]).endswith("DictCursor") for x in source_of(d, r)):
            have = {"mapping"}
        ctx.check(needs is not None and needs in have, "decoder", f"{c.name}: data-class", getattr(d.event, "loc", None) or loc, d.why or f"rows of the driver are decoded by {d.form}, but they only support access by {', '.join(sorted(have))}")
    # tuples and scalars: rows are sequences in the order of the columns
    for value, pc in r.returns:
        for x in walk(value):
            if x.op == "next" and isinstance(x.args[0], T):
                bad = any(y.op == "extern" and str(y.args[0]).endswith("DictCursor") for y in walk(x.args[0]))
                ctx.check(not bad, "decoder", f"{c.name}: tuple", loc, "rows that are dictionaries are decoded as tuples")
    return out


def source_of(d: Decoder, r: Result) -> Iterator[T]:
    for p in getattr(d.event, "pc", ()) or ():
        if p.op == "each":
            yield from walk(p.args[0])


# -- signatures


def signature(ctx: Ctx, t: T) -> tuple[str, object]:
    if t.op == "class" and isinstance(t.args[0], ClassInfo):
        fields = [n for n, *_ in t.args[0].dataclass_fields()]
        return ("dataclass", (t.args[0], fields)) if fields else ("unknown", None)
    if t.op == "sub" and t.args[0].op == "extern" and t.args[0].args[0] in ("tuple", "typing.Tuple", "Tuple"):
        a = t.args[1]
        return ("tuple", len(a.args[0]) if a.op == "tup" and len(a.args) == 1 and isinstance(a.args[0], tuple) else len(a.args) if a.op == "tup" else 1)
    if t.op == "extern":
        return "scalar", 1
    return "unknown", None


# -- expressions


def truth(toks: list[Tok], column: str, value: object) -> Optional[object]:
    "Value of a Boolean expression for a value of the column; None if undecided."
    from ..select import split, unparen

    toks = unparen(toks)
    if not toks:
        return None
    if toks[0].is_word("case") and toks[-1].is_word("end"):
        body = toks[1:-1]
        if any(t.is_word("case") for t in body) or not body or not body[0].is_word("when"):
            return None
        arms: list[tuple[list[Tok], list[Tok]]] = []
        cur: list[Tok] = []
        cond: list[Tok] = []
        other: list[Tok] = []
        mode = ""
        for t in body + [Tok("word", "when", ())]:
            if t.is_word("when", "else"):
                if mode == "then":
                    arms.append((cond, cur))
                elif mode == "else":
                    other = cur
                mode, cur = t.low, []
            elif t.is_word("then"):
                cond, mode, cur = cur, "then", []
            else:
                cur.append(t)
        for c, v in arms:
            x = truth(c, column, value)
            if x is None:
                return None
            if x:
                return truth(v, column, value)
        return truth(other, column, value) if other else False
    for word, fn in (("or", any), ("and", all)):
        parts = split(toks, lambda t, w=word: t.is_word(w))
        if len(parts) > 1:
            vals = [truth(p, column, value) for p in parts]
            return None if any(v is None for v in vals) else fn(vals)
    if toks[0].is_word("not"):
        x = truth(toks[1:], column, value)
        return None if x is None else not x
    ops = [i for i, t in enumerate(toks) if t.is_op("=", "!=", "<>", ">", "<", ">=", "<=")]
    if len(ops) == 1:
        a, b = truth(toks[: ops[0]], column, value), truth(toks[ops[0] + 1 :], column, value)
        if a is None or b is None:
            return None
        op = toks[ops[0]].text
        if op in ("=", "!=", "<>"):
            return (a == b) == (op == "=")
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        return None
    ins = [i for i, t in enumerate(toks) if t.is_word("in")]
    if len(ins) == 1:
        neg = toks[ins[0] - 1].is_word("not")
        a = truth(toks[: ins[0] - neg], column, value)
        vals = [truth(p, column, value) for p in split(unparen(toks[ins[0] + 1 :]), lambda t: t.is_op(","))]
        if a is None or any(v is None for v in vals):
            return None
        return (a in vals) != neg
    if len(toks) == 1:
        t = toks[0]
        if t.kind == "num":
            return int(t.text) if t.text.isdigit() else None
        if t.kind == "str":
            return t.parts[0] if t.parts and isinstance(t.parts[0], str) else "" if not t.parts else None
        if t.is_word("true", "false"):
            return t.is_word("true")
    if toks[-1].kind == "word" and toks[-1].low == column and all(t.kind in ("word", "qid") or t.is_op(".") for t in toks):
        return value
    return None


# -- rule


def request_of(q: Query):
    from .c18 import requests

    return requests(q)


def check(ctx: Ctx) -> None:
    forms = {d: decoders(ctx, d) for d in DIALECTS}
    done: set = set()
    for q in queries(ctx):
        if q.opaque:
            continue
        kind, shape = signature(ctx, q.signature)
        loc = q.event.loc or q.f.loc()
        owner = q.f.short
        ctx.count("queries")
        ctx.analysed(q.f)
        if kind == "unknown":
            ctx.notes.append(f"{owner}: signature {show(q.signature)[:60]} is not known statically")
            continue
        for n, v in enumerate(q.variants()):
            try:
                s = Select(tokens(v))
            except Unparsed as e:
                ctx.notes.append(f"{owner}: {e}")
                continue
            ctx.count("select lists")
            names = [i.name for i in s.items]
            label = f"{q.dialect}: {owner}: " + (shape[0].name if kind == "dataclass" else f"{kind} of {shape}" if kind == "tuple" else "scalar")  # type: ignore
            if s.star:
                ctx.check(kind == "scalar" and False, "enumerated", label, loc, "the columns selected are not enumerated")
                continue
            if kind != "dataclass":
                ctx.check(len(s.items) == shape, "count", label, loc, f"{len(s.items)} columns are selected for {shape}: {', '.join(str(x) for x in names)}")
                continue
            cls, fields = shape  # type: ignore
            for dialect in DIALECTS if q.dialect == "*" else (q.dialect,):
                d = forms[dialect]["dataclass"]
                if d is None:
                    continue
                decode(ctx, q, dialect, d, cls, fields, s, names, label, loc)
            roles(ctx, q, s, fields, forms, label, loc)
    for q in queries(ctx, outside_model):
        if not q.opaque:
            consumers(ctx, q)
    ctx.minimum("queries", 60)
    ctx.minimum("consumed", 100)
    ctx.minimum("select lists", 70)
    ctx.minimum("roles", 120)
    ctx.minimum("flags", 6)


def decode(ctx: Ctx, q: Query, dialect: str, d: Decoder, cls: ClassInfo, fields: list, s: Select, names: list, label: str, loc: str) -> None:
    if d.form in ("mapping", "named", "subset", "attribute"):
        fold = dialect in ("postgresql", "redshift")
        if dialect == "mysql":
            for i in s.items:
                ctx.check(i.alias is not None, "alias", f"{label}: {i.name}", loc, "a column without an alias is reported in upper case by MySQL 8, which names no field of the record")
        if dialect == "oracle":
            ctx.bad("alias", label, loc, "Oracle reports names in upper case")
        got = [n.lower() if fold and n else n for n in names]
        missing = [f for f in fields if f not in got]
        extra = [str(g) for g in got if g not in fields] if d.form in ("mapping", "named") else []
        dup = [] if fold else sorted({str(g) for g in got if got.count(g) > 1})
        ctx.check(not missing, "fields", f"{label}: missing", loc, f"fields of {cls.name} that are not selected: {', '.join(missing)}")
        ctx.check(not extra, "fields", f"{label}: extra", loc, f"columns that are not fields of {cls.name}: {', '.join(extra)}")
        ctx.check(not dup, "fields", f"{label}: duplicate", loc, f"columns selected twice: {', '.join(dup)}")
    elif d.form == "positional":
        if not ctx.check(len(names) == len(fields), "count", label, loc, f"{len(names)} columns are selected for the {len(fields)} fields of {cls.name}"):
            return
        for i, (item, f) in enumerate(zip(s.items, fields)):
            n = (item.name or "").lower()
            cols = {c for _, c in columns_in(item.expr)}
            ok = n == f or bool(cols & ROLES.get(f, set())) and n not in fields
            ctx.check(ok, "order", f"{label}: {f}", loc, f"position {i + 1} of the query selects {item.name or item}, but it is decoded into field {f} of {cls.name}")


def roles(ctx: Ctx, q: Query, s: Select, fields: list, forms: dict, label: str, loc: str) -> None:
    positional = q.dialect in forms and forms[q.dialect]["dataclass"] is not None and forms[q.dialect]["dataclass"].form == "positional"
    graph = None
    level = None
    if any(r.on for r in s.relations):
        from .c18 import level_of, graph_of

        level = level_of(ctx, q)
        if level:
            graph = graph_of(ctx, q, s)
            confined = graph.confined(level)
            if not confined:
                graph = None  # reported under C18
    last = {}
    for i, item in enumerate(s.items):
        f = fields[i] if positional and len(fields) == len(s.items) else (item.name or "")
        last[f.lower()] = item
    for f, item in last.items():
        want = ROLES.get(f)
        if want is None:
            continue
        cols = columns_in(item.expr)
        ctx.count("roles")
        expr = " ".join(t.text for t in item.expr)
        literal = len(item.expr) == 1 and item.expr[0].kind == "str" and f == "uq_constraint_name"
        ctx.check(literal or any(c in want for _, c in cols), "role", f"{label}: {f}", loc, f"field {f} is taken from {expr}")
        if graph is not None and len(graph.rels) > 1 and not literal:
            for alias, c in cols:
                if alias is None or c not in want:
                    continue
                uid, col = alias, c
                if alias in graph.mapping:
                    m = graph.mapping[alias].get(c)
                    if m is None:
                        continue
                    uid, col = m
                if uid not in graph.rels:
                    continue
                if f in SOURCE:
                    ctx.check(uid in confined and not col.startswith("referenced_"), "side", f"{label}: {f}", loc, f"field {f} of the requested object is taken from {alias}, which is not confined to that object")
                elif f in TARGET:
                    ctx.check(uid not in confined or col.startswith("referenced_"), "side", f"{label}: {f}", loc, f"field {f} of the referenced object is taken from {alias}, which describes the requested object")
        for (g, c), table in FLAGS.items():
            if g == f and c in {c2 for _, c2 in cols}:
                for value, expected in table.items():
                    t = truth(item.expr, c, value)
                    if t is None:
                        ctx.notes.append(f"{q.f.short}: {expr} is not decided for {value!r}")
                        continue
                    ctx.count("flags")
                    ctx.check(bool(t) == expected, "flag", f"{label}: {f}", loc, f"field {f} is {bool(t)} if {c} is {value!r}: {expr}")


NAMES = {"table_name", "relname", "typname", "name", "uq_table_name", "target_table", "enum_name"}
SCHEMAS = {"table_schema", "nspname", "owner", "type_schema", "data_type_owner", "target_namespace", "uq_table_schema", "fk_table_schema"}
COLUMNS = {"column_name", "attname", "name", "source_column", "member_name", "fk_column_name"}
# part of the model -> fields of records, or catalog columns, that it is made of
PARTS: dict[tuple[str, str], set[str]] = {
    ("sql_data_type_from_spec", "type_name"): {"type_name", "data_type"},
    ("sql_data_type_from_spec", "type_schema"): {"type_schema", "data_type_owner"},
    ("sql_data_type_from_spec", "type_def"): {"type_def", "column_type", "data_type"},
    ("sql_data_type_from_spec", "character_maximum_length"): {"character_maximum_length", "char_length", "data_length"},
    ("sql_data_type_from_spec", "numeric_precision"): {"numeric_precision", "data_precision"},
    ("sql_data_type_from_spec", "numeric_scale"): {"numeric_scale", "data_scale"},
    ("sql_data_type_from_spec", "datetime_precision"): {"datetime_precision"},
    ("Column", "name"): {"column_name", "attname", "name"},
    ("Column", "nullable"): {"nullable", "is_nullable"},
    ("Column", "default"): {"column_default", "default_value", "data_default", "definition"},
    ("Column", "identity"): {"is_identity", "extra"},
    ("Column", "description"): {"description", "comments", "column_comment"},
    ("StructMember", "name"): {"member_name"},
    ("StructMember", "description"): {"description"},
    ("StructType", "description"): {"description"},
    ("Table", "description"): {"description", "comments", "table_comment"},
    ("Table", "primary_key"): {"source_column", "column_name"},
    ("EnumType", "values"): {"enum_value"},
    ("EnumType", "enum_id"): {"enum_name"},
    ("ForeignFactory", "constraint_name"): {"constraint_name", "fk_constraint_name"},
    ("ForeignFactory", "source_column"): {"source_column", "fk_column_name"},
    ("ForeignFactory", "target_table"): {"target_namespace", "target_table", "uq_table_schema", "uq_table_name"},
    ("ForeignFactory", "target_column"): {"target_column", "uq_column_name"},
    ("UniqueFactory", "constraint_name"): {"constraint_name"},
    ("UniqueFactory", "column"): {"source_column", "column_name"},
    ("QualifiedId", "id"): NAMES | {"type_name"},
    ("PrefixedId", "id"): NAMES,
    ("QualifiedId", "namespace"): SCHEMAS,
    # a composite name is split into schema and local name
    ("PrefixedId", "namespace"): {"target_table", "uq_table_name", "table_name", "name"},
    ("get_table_primary_key", "return"): COLUMNS,
    ("get_table_description", "return"): {"description", "comments", "table_comment"},
}
MODEL = ("Column", "StructMember", "StructType", "Table", "EnumType", "QualifiedId", "PrefixedId", "ForeignFactory", "UniqueFactory")
# attributes that hold the classes of the model
FACTORY = {"column_class": "Column", "table_class": "Table", "struct_class": "StructType", "enum_class": "EnumType"}


def outside_model(g: FuncInfo) -> bool:
    return g.name == "sql_data_type_from_spec" or g.cls is not None and g.cls.name in ("ForeignFactory", "UniqueFactory") and g.name != "__init__"


class Rows:
    "Terms that stand for a row of a query, or for part of one."

    def __init__(self, ctx: Ctx, q: Query, kind: str, shape: object) -> None:
        self.ctx, self.q, self.kind = ctx, q, kind
        self.one = q_one(q)
        self.vars: set[T] = set()
        self.keys: dict[T, str] = {}
        self.columns: list[set[str]] = []
        if kind != "dataclass":
            try:
                s = Select(tokens(q.variants()[0]))
                self.columns = [{c for _, c in columns_in(i.expr)} for i in s.items]
            except Unparsed:
                pass
        groups: set[T] = set()
        pairs: list[tuple[T, T]] = []
        for e in events(q.r):
            for p in e.pc or ():
                if p.op == "each":
                    pairs.append((p.args[0], p.args[1]))
            for t in subterms(e):
                pairs += [(x.args[0], x.args[1]) for x in walk(t) if x.op == "for"]
        for v, _ in q.r.returns:
            pairs += [(x.args[0], x.args[1]) for x in walk(v) if x.op == "for"]
        for _ in range(2):
            for src, bv in pairs:
                src = self.strip(src)
                if same_query(src, q):
                    self.vars.add(bv)
                elif src.op == "call" and method_name(src) == "groupby" and src.args[2] and same_query(self.strip(src.args[2][0][1]), q):
                    groups.add(bv)
                    for _, a in src.args[2][1:]:
                        if a.op == "closure":
                            x = ctx.interp(lambda g, recv: False).run(a.args[0], None, closure=closure_env(a)).value
                            if x is not None and x.op == "attr" and x.args[0].op == "param":
                                self.keys[T("proj", (bv, 0))] = x.args[1]
                elif src.op == "proj" and src.args[0] in groups and src.args[1] == 1:
                    self.vars.add(bv)

    @staticmethod
    def strip(t: T) -> T:
        while t.op == "call" and t.args[0] in ("list", "tuple", "iter", "sorted") and t.args[2]:
            t = t.args[2][0][1]
        return t

    def row(self, t: T) -> bool:
        if t in self.vars or self.one and same_query(t, self.q):
            return True
        return t.op in ("sub", "slice") and isinstance(t.args[0], T) and same_query(t.args[0], self.q) or t.op == "pos" and same_query(t.args[0], self.q)

    def parts(self, t: object) -> set[str]:
        "Fields of the record, or catalog columns, that a value is made of; conditions do not count."
        if isinstance(t, tuple):
            return {y for x in t for y in self.parts(x)}
        if not isinstance(t, T):
            return set()
        if t in self.keys:
            return {self.keys[t]}
        if t.op == "attr" and isinstance(t.args[0], T) and self.row(t.args[0]):
            return {t.args[1]}
        if t.op in ("sub", "proj") and isinstance(t.args[0], T):
            i = t.args[1].args[0] if isinstance(t.args[1], T) and t.args[1].op == "const" else t.args[1]
            x = t.args[0]
            if self.row(x) and self.kind == "tuple" and isinstance(i, int) and 0 <= i < len(self.columns):
                return set(self.columns[i])
            if x.op == "call" and x.args[0] == "dict" and len(x.args[2]) == 1 and same_query(x.args[2][0][1], self.q) and len(self.columns) == 2:
                return set(self.columns[1])
        if self.row(t):
            return set(self.columns[0]) if self.kind == "scalar" and self.columns else {"(row)"}
        if same_query(t, self.q):
            return set(self.columns[0]) if self.kind == "scalar" and self.columns else set()
        if t.op in ("phi", "ite", "cond"):
            return self.parts(t.args[1:])
        if t.op == "for":
            return self.parts(t.args[2])
        if t.op == "if":
            return self.parts(t.args[1:])
        return self.parts(t.args)


def subterms(e: T) -> Iterator[T]:
    for a in e.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    yield b
                elif isinstance(b, tuple):
                    yield from (c for c in b if isinstance(c, T))


def sinks(ctx: Ctx, q: Query) -> Iterator[tuple[str, str, T, str]]:
    "Parts of the model that the function makes: (class or operation, parameter, value, location)."
    for e in events(q.r):
        loc = e.loc or q.f.loc()
        name: Optional[str] = None
        cls: Optional[ClassInfo] = None
        args: tuple = ()
        if e.op == "new" and isinstance(e.args[0], ClassInfo):
            cls, args = e.args[0], e.args[1]
        elif e.op == "newof":
            callee = e.args[0]
            if callee.op == "attr" and callee.args[1] in FACTORY:
                cls, args = ctx.prog.find_class(FACTORY[callee.args[1]]), e.args[1]
            elif callee.op == "class":
                cls, args = callee.args[0], e.args[1]
        elif e.op == "call" and method_name(e) == "sql_data_type_from_spec":
            for p, v in e.args[2]:
                yield "sql_data_type_from_spec", p, v, loc
        elif e.op == "call" and isinstance(e.meta, FuncInfo) and e.meta.cls is not None:
            name = e.meta.cls.name
            if name in MODEL:
                for p, v in e.args[2]:
                    yield name, p, v, loc
        elif e.op == "setattr" and isinstance(e.args[1], str) and ("Column", e.args[1]) in PARTS:
            yield "Column", e.args[1], e.args[2], loc
        if cls is not None:
            base = next((k.name for k in cls.project_mro() if k.name in MODEL), None)
            if base is None:
                continue
            sig = constructor(cls, ctx.prog)
            names = list(sig.positional) if sig is not None else []
            if cls.name == "EnumType" or base == "EnumType":
                names = names or ["enum_id", "values"]
            for p, v in args:
                yield base, names[int(p)] if p.isdigit() and int(p) < len(names) else p, v, loc
    for v, _ in q.r.returns:
        yield q.f.name, "return", v, q.f.loc()


def consumers(ctx: Ctx, q: Query) -> None:
    "Fields used are fields of the record, and each becomes the part of the model that it describes."
    kind, shape = signature(ctx, q.signature)  # type: ignore
    if kind == "unknown":
        return
    rows = Rows(ctx, q, kind, shape)
    if kind == "dataclass":
        cls, fields = shape  # type: ignore
        methods = {n for k in cls.project_mro() for n in k.methods}
        for e in events(q.r):
            for t in subterms(e):
                for x in walk(t):
                    if x.op == "attr" and isinstance(x.args[0], T) and rows.row(x.args[0]):
                        ctx.check(x.args[1] in fields or x.args[1] in methods, "consumer", f"{q.f.short}: {x.args[1]}", e.loc or q.f.loc(), f"{cls.name} has no field {x.args[1]}")
    for owner, param, value, loc in sinks(ctx, q):
        want = PARTS.get((owner, param))
        if want is None:
            continue
        got = rows.parts(value)
        if owner == "QualifiedId" and param == "namespace" and any(x.op == "call" and method_name(x) == "split" for x in walk(value)):
            want = want | NAMES
        if got:
            ctx.count("consumed")
            ctx.check(got <= want, "consumer", f"{q.f.short}: {owner}.{param}", loc, f"{param} of {owner} is taken from {', '.join(sorted(got - want))}")
    # lookups by the name of a column
    for e in events(q.r):
        for t in list(subterms(e)) + [c for c in e.pc or ()]:
            for x in walk(t):
                key = table = None
                if x.op == "in" and len(x.args) == 2:
                    key, table = x.args
                elif x.op == "sub" and isinstance(x.args[1], T):
                    table, key = x.args
                if not isinstance(key, T) or not isinstance(table, T) or key.op == "const":
                    continue
                if table.op == "call" and table.args[0] == "dict" and len(table.args[2]) == 1:
                    table = table.args[2][0][1]
                if same_query(table, q) and rows.columns and kind in ("scalar", "tuple"):
                    ctx.count("consumed")
                    ctx.check(rows.columns[0] <= COLUMNS | NAMES, "consumer", f"{q.f.short}: lookup", e.loc or q.f.loc(), f"a name is looked up among {', '.join(sorted(rows.columns[0]))}")
    # names of the columns with a property
    for e in events(q.r):
        if e.op == "setattr" and e.args[1] == "identity" and e.args[2] == T("const", (True,)):
            if any(x.op == "in" and same_query(x.args[1], q) for c in e.pc or () for x in walk(c)):
                for v in q.variants():
                    try:
                        s = Select(tokens(v))
                    except Unparsed:
                        continue
                    ok = any(truth(c, "is_identity", 1) and truth(c, "is_identity", 0) is False for c in s.where)
                    ctx.check(ok, "consumer", f"{q.f.short}: identity", e.loc or q.f.loc(), "columns are made identity columns that are not known to be such")


def q_one(q: Query) -> bool:
    return method_name(q.event) == "query_one"


def same_query(t: T, q: Query) -> bool:
    return t.op == "call" and q.event.op == "call" and t.args == q.event.args
