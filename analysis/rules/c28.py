"""
Decides that a column type that a generator declares is read back from the catalog of the database as the same type.

* `back`: for each dialect whose database has an explorer, the texts of all types that the converter of the dialect makes of Python types
  are taken from the evaluation of C33 (for PostgreSQL also arrays of them, for MySQL inline enumerations). What the catalog reports for
  a column declared with the text is given by the tables below, from the manuals of the databases. The expression by which each explorer
  makes the data type of a column (or member) of a row of its catalog query is extracted as a term and evaluated on that row, with the
  functions of discovery: it yields a type, and the catalog reports for the text of that type what it reported for the declared text.
* `own`: a type of the database is not taken for a type defined by the user.
* `shared`: the types of the table of substitutions of an explorer are not assigned to, but copied for each column.
* `user`: a type defined by the user (an enumeration or composite type of PostgreSQL) is discovered as that type, with its schema and name.
"""

from __future__ import annotations

import ast
import re
from typing import Iterator, Optional

from ..common import guarded
from ..finite import Ext, Finite, Obj, Raised, Undecided
from ..framework import Ctx, events
from ..program import AnalysisError, ClassInfo, FuncInfo
from ..terms import T, show, walk
from . import c05, c33

ASSUMPTIONS = [
    "what the catalogs report for a declared type, as listed in the tables of this rule (PostgreSQL pg_type/format_type, MySQL and SQL Server information_schema.columns, Oracle dba_tab_columns, Trino information_schema.columns)",
    "the columns of a catalog query are decoded into the record of the query by name (C17, C36)",
    "an integer type of Oracle is NUMBER: whether it is declared with scale 0 is not told apart",
]
EXPLORED = ("postgresql", "redshift", "mysql", "mssql", "oracle", "trino")
Row = dict[str, object]


# -- catalogs


def split(text: str) -> tuple[str, tuple[int, ...], str]:
    m = re.fullmatch(r"([a-z_0-9 \"]+?) *(?:\(([-0-9, a-z]*)\))? *(with time zone|without time zone)?", text.lower().replace('"pg_catalog".', "").replace('"', "").replace("pg_catalog.", ""))
    if m is None:
        return text, (), ""
    args = tuple(int(x) if x.strip().lstrip("-").isdigit() else -1 for x in m.group(2).split(",")) if m.group(2) else ()
    return m.group(1).strip(), args, m.group(3) or ""


PG_NAMES = {"boolean": ("bool", "boolean"), "bool": ("bool", "boolean"), "smallint": ("int2", "smallint"), "integer": ("int4", "integer"), "int": ("int4", "integer"), "bigint": ("int8", "bigint"),
            "real": ("float4", "real"), "double precision": ("float8", "double precision"), "text": ("text", "text"), "date": ("date", "date"), "interval": ("interval", "interval"),
            "uuid": ("uuid", "uuid"), "json": ("json", "json"), "jsonb": ("jsonb", "jsonb"), "inet": ("inet", "inet"), "bytea": ("bytea", "bytea")}


def postgresql(text: str, redshift: bool = False) -> Optional[Row]:
    if text.endswith("[]"):
        r = postgresql(text[:-2]) if not redshift else None
        return r and {**r, "type_def": f"{r['type_def']}[]", "is_array": True}
    name, a, zone = split(text)
    n = f"({','.join(map(str, a))})" if a else ""
    if redshift:
        if name in ("uuid", "json", "jsonb", "inet", "interval", "bytea"):
            return None
        if name in ("varbyte", "varbinary", "binary varying"):
            return row("varbyte", f"binary varying({a[0] if a else 64000})")
        if name == "text":
            name, a, n = "varchar", (256,), "(256)"
        if name in ("time", "timestamp") and a:
            return None
        if name == "decimal" and not a:
            a, n = (18, 0), "(18,0)"
        if name == "decimal" and a[0] > 38 or name == "varchar" and a and a[0] > 65535:
            return None
    if name == "char varying":
        return None
    if name in PG_NAMES and not a:
        return row(*PG_NAMES[name])
    if name in ("decimal", "numeric"):
        return row("numeric", f"numeric({a[0]},{a[1] if len(a) > 1 else 0})" if a else "numeric")
    if name == "float":
        return row(*(PG_NAMES["real"] if a and a[0] <= 24 else PG_NAMES["double precision"]))
    if name in ("varchar", "character varying"):
        return row("varchar", f"character varying{n}")
    if name in ("char", "character"):
        return row("bpchar", f"character{n or '(1)'}")
    if name == "bpchar":
        return row("bpchar", f"bpchar{n}")
    if name in ("time", "timestamp"):
        return row({"time": "time", "timestamp": "timestamp"}[name] + ("tz" if zone == "with time zone" else ""), f"{name}{n} {zone or 'without time zone'}")
    return None


def row(name: str, definition: str) -> Row:
    return {"type_schema": "pg_catalog", "type_name": name, "type_def": definition, "is_array": False}


def ansi(data_type: str, chars: Optional[int] = None, precision: Optional[int] = None, scale: Optional[int] = None, seconds: Optional[int] = None, **more: object) -> Row:
    return {"data_type": data_type, "character_maximum_length": chars, "numeric_precision": precision, "numeric_scale": scale, "datetime_precision": seconds, **more}


MYSQL_TEXT = {"tinytext": 255, "text": 65535, "mediumtext": 16777215, "longtext": 4294967295, "tinyblob": 255, "blob": 65535, "mediumblob": 16777215, "longblob": 4294967295}


def mysql(text: str) -> Optional[Row]:
    m = re.fullmatch(r"enum *\((.*)\)", text, re.IGNORECASE | re.DOTALL)
    if m is not None:
        values = [v.replace("''", "'") for v in re.findall(r"'((?:[^']|'')*)'", m.group(1))]
        return ansi("enum", max(map(len, values)), column_type="enum({})".format(",".join("'" + v.replace("'", "''") + "'" for v in values)))
    name, a, zone = split(text)
    name = {"int": "integer", "boolean": "tinyint", "bool": "tinyint", "double": "double precision", "real": "double precision", "numeric": "decimal", "character": "char", "character varying": "varchar"}.get(name, name)
    if zone:
        return None
    if name in ("tinyint", "smallint", "integer", "bigint"):
        n, p = {"tinyint": ("tinyint", 3), "smallint": ("smallint", 5), "integer": ("int", 10), "bigint": ("bigint", 19)}[name]
        return ansi(n, None, p, 0, column_type=n)
    if name == "double precision" or name == "float" and a and a[0] > 24:
        return ansi("double", None, 22, column_type="double")
    if name == "float":
        return ansi("float", None, 12, column_type="float")
    if name == "decimal":
        p, s = (a + (10, 0)[len(a):])[:2]
        return ansi("decimal", None, p, s, column_type=f"decimal({p},{s})") if p <= 65 and s <= 30 else None
    if name in ("varchar", "varbinary", "char", "binary"):
        n = a[0] if a else 1
        return ansi(name, n, column_type=f"{name}({n})")
    if name in MYSQL_TEXT:
        return ansi(name, MYSQL_TEXT[name], column_type=name)
    if name in ("date", "json"):
        return ansi(name, column_type=name)
    if name in ("time", "datetime", "timestamp"):
        n = a[0] if a else 0
        return ansi(name, None, None, None, n, column_type=f"{name}({n})" if n else name)
    return None


def mssql(text: str) -> Optional[Row]:
    name, a, zone = split(text)
    name = {"integer": "int", "character": "char", "character varying": "varchar", "numeric": "decimal", "binary varying": "varbinary"}.get(name, name)
    if zone:
        return None
    if name == "bit":
        return ansi("bit")
    if name in ("tinyint", "smallint", "int", "bigint"):
        return ansi(name, None, {"tinyint": 3, "smallint": 5, "int": 10, "bigint": 19}[name], 0)
    if name == "real" or name == "float" and a and a[0] <= 24:
        return ansi("real", None, 24)
    if name in ("double precision", "float"):
        return ansi("float", None, 53)
    if name == "decimal":
        p, s = (a + (18, 0)[len(a):])[:2]
        return ansi("decimal", None, p, s) if p <= 38 else None
    if name in ("varchar", "nvarchar", "varbinary", "char", "binary"):
        n = a[0] if a else 1
        return ansi(name, n) if n <= (4000 if name == "nvarchar" else 8000) else None
    if name == "text":
        return ansi("text", 2147483647)
    if name == "date":
        return ansi("date", None, None, None, 0)
    if name in ("time", "datetime2"):
        return ansi(name, None, None, None, a[0] if a else 7)
    if name == "datetime":
        return ansi("datetime", None, None, None, 3)
    return None


def dba(data_type: str, length: int, precision: Optional[int] = None, scale: Optional[int] = None, chars: int = 0) -> Row:
    return {"data_type": data_type, "data_type_owner": None, "data_length": length, "data_precision": precision, "data_scale": scale, "char_length": chars}


def oracle(text: str) -> Optional[Row]:
    if text.lower() == "interval day to second":
        return dba("INTERVAL DAY(2) TO SECOND(6)", 11, 2, 6)
    name, a, zone = split(text)
    if name == "number" and not a:
        return dba("NUMBER", 22)
    if name in ("smallint", "integer", "int", "decimal", "numeric") and not a:
        return dba("NUMBER", 22, None, 0)
    if name in ("decimal", "numeric", "number"):
        return dba("NUMBER", 22, *(a + (0,))[:2]) if a[0] <= 38 else None
    if name == "real":
        return dba("FLOAT", 22, 63)
    if name in ("double precision", "float"):
        return dba("FLOAT", 22, a[0] if a else 126)
    if name in ("varchar2", "varchar"):
        return dba("VARCHAR2", a[0], chars=a[0]) if a and a[0] <= 4000 else None
    if name in ("char", "character"):
        n = a[0] if a else 1
        return dba("CHAR", n, chars=n) if n <= 2000 else None
    if name == "raw":
        return dba("RAW", a[0]) if a and a[0] <= 2000 else None
    if name in ("clob", "blob"):
        return dba(name.upper(), 4000)
    if name == "date":
        return dba("DATE", 7)
    if name == "boolean":
        return dba("BOOLEAN", 1)
    if name == "json":
        return dba("JSON", 8200)
    if name == "timestamp":
        n = a[0] if a else 6
        return dba(f"TIMESTAMP({n})" + (" WITH TIME ZONE" if zone == "with time zone" else ""), 11, None, n)
    return None


def trino(text: str) -> Optional[Row]:
    name, a, zone = split(text)
    name = {"double precision": "double", "character varying": "varchar", "int": "integer", "numeric": "decimal", "text": "varchar"}.get(name, name)
    z = f" {zone}" if zone == "with time zone" else ""
    if name in ("boolean", "tinyint", "smallint", "integer", "bigint", "real", "double", "date", "json", "uuid", "varbinary") and not a:
        return {"data_type": name}
    if name == "decimal":
        p, s = (a + (38, 0)[len(a):])[:2]
        return {"data_type": f"decimal({p},{s})"} if p <= 38 else None
    if name == "varchar":
        return {"data_type": f"varchar({a[0]})" if a else "varchar"}
    if name == "char":
        return {"data_type": f"char({a[0] if a else 1})"}
    if name in ("time", "timestamp"):
        return {"data_type": f"{name}({a[0] if a else 3}){z}"}
    return None


CATALOGS = {"postgresql": postgresql, "redshift": lambda t: postgresql(t, True), "mysql": mysql, "mssql": mssql, "oracle": oracle, "trino": trino}
USER: list[Row] = [
    {"type_name": n, "type_schema": "demo", "type_def": text + ("[]" if array else ""), "is_array": array}
    for n, text in (("color", "demo.color"), ("color", "color"), ("WorkflowState", 'demo."WorkflowState"'), ("WorkflowState", '"WorkflowState"'))
    for array in (False, True)
]
ENUMS = (["a"], ["short", "a longer one"], ["it's", "plain"], ["'", "''"], ["a,b", "(c)"], ["x','y", "z"])


# -- evaluation


def check(ctx: Ctx) -> None:
    found = 0
    texts = declared(ctx)
    for d, explorer in explorers(ctx):
        catalog = CATALOGS[d]
        ex = Explorer(ctx, d, explorer)
        made = list(ex.types())
        if not made:
            raise AnalysisError(f"{explorer.name} does not make a column of a row of a catalog query")
        for f, data_type, bv, label, changes in made:
            ctx.count("explorer expressions")
            for text in sorted(texts[d]):
                for words in (text, text + "[]") if d == "postgresql" else (text,):
                    r = catalog(words)
                    if r is None:
                        continue
                    found += 1
                    ctx.count("types read back")
                    key = f"{d}: {label}: {general(words)}"
                    try:
                        o = ex.read(data_type, bv, r, changes)
                        back = ex.text(o)
                    except Raised:
                        ctx.bad("back", key, f.loc(), f"a column declared as {words}, which the catalog reports as {shown(r)}, is refused on discovery")
                        continue
                    except Undecided as e:
                        raise AnalysisError(f"{f.short}: {words} in {d}: {e}")
                    again = catalog(back)
                    ctx.check(same(again, r), "back", key, f.loc(), f"a column declared as {words}, which the catalog reports as {shown(r)}, is discovered as {back}")
                    own = o
                    while isinstance(own, Obj) and own.cls.name == "SqlArrayType":
                        own = own.get("element_type")
                    foreign = isinstance(own, Obj) and own.cls.name == "SqlUserDefinedType" and str(r.get("type_name")) not in ("inet",)
                    ctx.check(not foreign, "own", key, f.loc(), f"a column declared as {words} is discovered as a type defined by the user")
            if d == "postgresql":
                for r in USER:
                    ctx.count("types of the user read back")
                    key = f"{d}: {label}: {r['type_name']}{'[]' if r['is_array'] else ''}"
                    try:
                        o = ex.read(data_type, bv, r, changes)
                    except (Raised, Undecided) as e:
                        o = str(e)
                    own = o
                    if r["is_array"] and isinstance(o, Obj) and o.cls.name == "SqlArrayType":
                        own = o.get("element_type")
                    ref = own.get("ref") if isinstance(own, Obj) and own.cls.name == "SqlUserDefinedType" else None
                    named = [v for _, v in sorted(ref.attrs) if v is not None] if isinstance(ref, Obj) else None
                    ctx.check(named is not None and set(named) == {r["type_schema"], r["type_name"]}, "user", key, f.loc(), f"a column of the type {r['type_schema']}.{r['type_name']} of the user, which the catalog reports as {shown(r)}, is discovered as {o}")
    fresh(ctx)
    ctx.minimum("explorer expressions", 6)
    ctx.minimum("types read back", 150)


def fresh(ctx: Ctx) -> None:
    "Attributes are assigned to on types made for the column, not on those that stand in the table of substitutions."
    k = ctx.prog.find_class("SqlDiscovery")
    own = [(f, k) for f in k.methods.values()]
    own += [(f, c) for _, c in explorers(ctx) for n in sorted({n for x in c.project_mro() for n in x.methods}) for f in [c.find_method(n)] if f is not None and not f.is_abstract]
    seen = set()
    for f, c in own:
        if (f, c if f.cls is None else f.cls) in seen:
            continue
        seen.add((f, f.cls))
        if not any(isinstance(x, ast.Assign) and any(isinstance(y, ast.Attribute) for y in x.targets) or isinstance(x, (ast.AugAssign, ast.AnnAssign)) and isinstance(x.target, ast.Attribute) for x in ast.walk(f.node)):
            continue
        for e in events(ctx.run(f, c)):
            if e.op == "setattr" and e.args[0] != T("param", ("self",)):
                ctx.count("assignments to types")
                ctx.check(not shared(ctx, e.args[0], set()), "shared", f"{f.short}: {e.args[1]}", e.loc or f.loc(), "an attribute of a type in the table of substitutions is assigned to, so that a column changes the types of the columns found before it and after it")


def shared(ctx: Ctx, t: T, seen: set) -> bool:
    if t.op == "phi":
        return shared(ctx, t.args[1], seen) or shared(ctx, t.args[2], seen)
    if t.op in ("ornone",):
        return shared(ctx, t.args[0], seen)
    if t.op == "or":
        return any(shared(ctx, x, seen) for x in t.args)
    if t.op == "sub" or t.op == "call" and t.args[0] in (".get", ".setdefault", ".pop"):
        table = t.args[0] if t.op == "sub" else t.args[1]
        return isinstance(table, T) and any(x.op == "attr" and x.args[1] == "substitutions" for x in walk(table))
    if t.op == "call" and isinstance(t.meta, FuncInfo) and t.meta not in seen:
        seen.add(t.meta)
        r = ctx.run(t.meta, t.meta.cls)
        return any(shared(ctx, v, seen) for v, _ in r.returns)
    return False


def same(a: Optional[Row], b: Row) -> bool:
    if a is not None and a.get("data_type") == b.get("data_type") == "NUMBER" and a["data_precision"] is None and b["data_precision"] is None:
        return True
    return a == b


def shown(r: Row) -> str:
    return ", ".join(f"{k}={v}" for k, v in r.items() if v is not None and k not in ("type_schema", "is_array"))


def general(text: str) -> str:
    "Sizes do not tell findings apart, but for small ones."
    return re.sub(r"\d{2,}", "n", text)


def explorers(ctx: Ctx) -> Iterator[tuple[str, ClassInfo]]:
    for c in ctx.prog.find_class("BaseEngine").all_subclasses():
        d = c05.dialect_of(c)
        f = c.find_method("get_explorer_type")
        if d not in EXPLORED or f is None:
            continue
        r = ctx.run(f, c)
        if r.value is None or r.value.op != "class":
            continue
        yield d, r.value.args[0]


def declared(ctx: Ctx) -> dict[str, set[str]]:
    "The texts of the types that the converter of each dialect makes."
    c = ctx.prog.find_class("DataclassConverter")
    f = c.find_method("simple_type_to_sql_data_type")
    if f is None:
        raise AnalysisError("no function maps simple types")
    fin = Finite(ctx, inline=lambda g, recv: g.name not in ("parse_meta", "__str__"), model=c33.model)
    out: dict[str, set[str]] = {}
    for d, g, init in c05.generators(ctx):
        if d not in EXPLORED:
            continue
        texts = out.setdefault(d, set())
        for options, extra in c33.dialect_options(ctx, fin, d, g, init):
            if extra:
                continue
            me = Obj(c, (("options", options),))
            for name, t, need in c33.domain({255, 2000, 4000, 8000, 65535}):
                try:
                    o = c33.chosen(ctx, fin, f, c, me, t)
                    words = c33.text(fin, o) if o is not None else None
                except Raised:
                    continue
                except Undecided as e:
                    raise AnalysisError(f"{f.short} for {name} in {d}: {e}")
                if words is not None and c33.holds(d, words, need) is not None:
                    texts.add(words)
        texts |= {"char(1)", "char(8)"}
        if d == "mysql":
            k = ctx.prog.find_class("SqlEnumType")
            for values in ENUMS:
                words = fin.text(fin.construct(k, [("values", tuple(values))]))
                if mysql(words) is None or mysql(words) != mysql("enum({})".format(",".join("'" + v.replace("'", "''") + "'" for v in values))):
                    raise AnalysisError(f"text of an enumeration type: {words}")
                texts.add(words)
    return out


class Explorer:
    def __init__(self, ctx: Ctx, dialect: str, cls: ClassInfo) -> None:
        self.ctx, self.dialect, self.cls = ctx, dialect, cls
        self.fin = Finite(ctx, inline=lambda g, recv: g.name != "__str__", model=self.model)
        self.spec = ctx.prog.find_class("SqlDiscovery").find_method("sql_data_type_from_spec")
        self.discovery = self.configured()

    def configured(self) -> Obj:
        init = self.cls.find_method("__init__")
        if init is None:
            raise AnalysisError(f"{self.cls.name} has no discovery")
        r = self.ctx.run(init, self.cls, inline=lambda g, x: g.name == "__init__" and "xplorer" in (g.cls.name if g.cls is not None else ""))
        for e in events(r):
            for x in walk(e):
                if x.op == "new" and x.args[0].name == "SqlDiscovery":
                    subs: object = {}
                    for y in walk(x):
                        if y.op == "new" and y.args[0].name == "SqlDiscoveryOptions":
                            for _, v in y.args[1]:
                                subs = self.fin.value(v, {})
                    options = Ext("options", (("substitutions", c33.Table(subs)),))  # type: ignore
                    return Obj(x.args[0], (("options", options),))
        raise AnalysisError(f"{self.cls.name} has no discovery")

    def types(self) -> Iterator[tuple[FuncInfo, T, T, str, list[T]]]:
        "Expressions of the data types of columns and members of rows of catalog queries."
        seen = set()
        names = {n for c in self.cls.project_mro() for n in c.methods}
        for n in sorted(names):
            f = self.cls.find_method(n)
            if f is None or n.startswith("_") or f.is_abstract:
                continue
            r = self.ctx.run(f, self.cls, inline=lambda g, x, f=f: g.name == f.name and g is not f or g.name.startswith("_") and not g.name.startswith("__") and g.cls is not None)
            changes: list[T] = []
            for e in events(r):
                if e.op == "setattr":
                    changes.append(e)
                if e.op not in ("new", "newof"):
                    continue
                args = list(e.args[1])
                data = [v for k, v in args if k in ("1", "data_type") and any(x.op == "call" and isinstance(x.meta, FuncInfo) and x.meta.name == self.spec.name for x in walk(v))]  # type: ignore
                if not data or self.excluded(e):
                    continue
                bvs = [c.args[1] for c in e.pc if c.op == "each"]
                label = f"{f.name}{' (limited)' if 'tuple' in show(e.pc[0])[:60] else ''}"
                if not bvs or (label, data[0]) in seen:
                    continue
                seen.add((label, data[0]))
                yield f, data[0], bvs[-1], label, [x for x in changes if any(x.args[0] is y or x.args[0] == y for y in walk(data[0]))]

    def excluded(self, e: T) -> bool:
        "Columns without information on lengths are those of Trino."
        for c in e.pc:
            if any(x.op == "call" and str(x.args[0]).endswith("has_column_extended_info") for x in walk(c)) and c.op in ("not", "call"):
                return (c.op == "not") != (self.dialect == "trino")
        return False

    def read(self, t: T, bv: T, r: Row, changes: list[T]) -> object:
        attrs = {"is_nullable": True, "nullable": 1, "extra": "", "is_identity": False, **r}
        env: dict[T, object] = {bv: Ext("row", tuple(attrs.items())), T("attr", (T("param", ("self",)), "discovery")): self.discovery}
        for e in changes:
            # an attribute of the type is assigned to between its discovery and its use
            o = self.fin.value(e.args[0], env)
            if isinstance(o, Obj) and all(self.fin.truth(c, env) for c in e.pc if c.op != "each"):
                v = self.fin.value(e.args[2], env)
                o = Obj(o.cls, tuple((n, x) for n, x in o.attrs if n != e.args[1]) + ((e.args[1], v),))
            env[e.args[0]] = o
        return self.fin.value(t, env)

    def text(self, o: object) -> str:
        if isinstance(o, Obj) and o.cls.name == "SqlArrayType":
            return self.text(o.get("element_type")) + "[]"
        if isinstance(o, Obj) and o.cls.name == "SqlUserDefinedType":
            ref = o.get("ref")
            parts = [str(v) for k, v in sorted(ref.attrs, key=lambda x: x[0] in ("id", "local_id")) if v is not None] if isinstance(ref, Obj) else []
            return ".".join(parts)
        return self.fin.text(o)

    def model(self, fin: Finite, t: T, env: dict[T, object]) -> object:
        a = t.args
        if t.op == "proj" and isinstance(a[0], T) or t.op == "sub" and isinstance(a[0], T) and isinstance(a[1], T) and a[1].op == "const" and isinstance(a[1].args[0], int):
            v = fin.value(a[0], env)
            at = a[1].args[0] if isinstance(a[1], T) else a[1]
            if isinstance(v, Ext) and v.kind == "row":
                # name, data type, nullable
                return ("column", dict(v.attrs)["data_type"], 1)[at]
            if t.op == "sub" and isinstance(v, tuple):
                return v[at]
            if isinstance(v, tuple):
                return v[a[1]]
        if t.op == "call" and isinstance(t.meta, FuncInfo) and t.meta is self.spec:
            return self.decide(fin, {k: fin.value(v, env) for k, v in a[2]}, fin.value(a[1], env))
        if t.op == "call" and a[0] in ("re.fullmatch", "re.match", "re.search", "re.findall", "re.sub"):
            vs = [fin.value(v, env) for _, v in a[2]]
            vs = [int(getattr(re, str(v.ref).rsplit(".", 1)[-1])) if not isinstance(v, (str, int)) else v for v in vs]  # type: ignore
            return getattr(re, a[0].split(".")[1])(*vs)
        if t.op == "call" and a[0] == "re.compile":
            vs = [fin.value(v, env) for _, v in a[2]]
            return re.compile(*[int(getattr(re, str(v.ref).rsplit(".", 1)[-1])) if not isinstance(v, (str, int)) else v for v in vs])  # type: ignore
        if t.op == "call" and a[0] in (".fullmatch", ".match", ".search", ".findall", ".sub", ".split") and isinstance(a[1], T):
            p = fin.value(a[1], env)
            if isinstance(p, re.Pattern):
                return getattr(p, a[0][1:])(*[fin.value(v, env) for _, v in a[2]])
        if t.op == "call" and isinstance(a[0], str) and a[0] in (".group", ".groups", ".groupdict") and isinstance(a[1], T):
            m = fin.value(a[1], env)
            if isinstance(m, re.Match):
                return getattr(m, a[0][1:])(*[fin.value(v, env) for _, v in a[2]])
        if t.op == "sub" and isinstance(a[0], T) and isinstance(fin.value(a[0], env), re.Match):
            return fin.value(a[0], env)[fin.value(a[1], env)]  # type: ignore
        return NotImplemented

    def decide(self, fin: Finite, given: dict[str, object], me: object) -> object:
        "The type that discovery makes of the description of a column."
        f = self.spec
        assert f is not None
        r = fin.result(f, f.cls)
        env: dict[T, object] = {T("param", ("self",)): me}
        a = f.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults)) | {k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}
        for n in pos[1:] + [x.arg for x in a.kwonlyargs]:
            env[T("param", (n,))] = given[n] if n in given else fin.literal(defaults[n])
        out: object = None
        for value, pc in r.returns:
            if fin.taken(pc, env):
                out = fin.value(value, env)
                break
        else:
            raise Raised(f.short)
        if isinstance(out, Obj):
            changes: dict[str, object] = {}
            for e in events(r):
                if e.op == "setattr" and isinstance(e.args[0], T) and fin.taken(e.pc, env) and fin.value(e.args[0], env) == out:
                    changes[e.args[1]] = fin.value(e.args[2], env)
            if changes:
                out = Obj(out.cls, tuple((k, changes.get(k, v)) for k, v in out.attrs))
        return out
