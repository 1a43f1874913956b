"""
Decides that the column type chosen for a field can represent every value of the field's Python type.

The function that maps simple Python types to column types is extracted, and evaluated for each dialect (with the substitutes that the
dialect's generator registers, extracted from its constructor) on every plain type it knows, on the numeric types of fixed width, and on
annotated types, with representatives of every region of widths, lengths and precisions. The text of the type it chooses is looked up
in tables of what types of that name hold in the database.

* `holds`: the column type holds all values that the Python type and its annotations allow (or no column is made: an exception, or a
  type that the database does not have and refuses).
* `annotations`: every annotation that is not skipped reaches the type, on all paths, in order.
* `fields`: the type of a column is the type chosen for the type of the field without its key annotations.
"""

from __future__ import annotations

import ast
import math
import re
from dataclasses import dataclass
from typing import Iterator, Optional

from ..capacity import INF, size
from ..finite import Cls, Ext, Finite, Obj, Raised, Undecided, constants
from ..framework import Ctx, events
from ..program import AnalysisError, ClassInfo, FuncInfo
from ..terms import T, show, walk
from . import c05

ASSUMPTIONS = [
    "the tables below and in analysis/capacity.py, from the manuals of the databases; a type name that a database does not have is refused by it",
    "lengths are counted in the unit in which the type declares them; a plain integer has 64 bits, a text without a maximum length is no longer than 65535",
    "strong_typing defines the numeric types of fixed width as annotated types (Signed, Storage, IntegerRange), which compare equal by their annotations",
]
AUX = "strong_typing.auxiliary."
LONG = 65535


@dataclass(frozen=True)
class Need:
    kind: str  # int | float | decimal | text | bytes | timestamp | time | date | interval | bool | uuid | ip4 | ip6 | json
    a: float = 0
    b: float = 0


def meta(name: str, **attrs: object) -> Ext:
    return Ext(AUX + name, tuple(sorted(attrs.items())))


def pytype(base: str, *metas: Ext) -> Ext:
    return Ext("type", (("base", base), ("metas", tuple(metas))))


def fixed(bits: int, signed: bool) -> Ext:
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    return pytype("int", meta("Signed", is_signed=signed), meta("Storage", bytes=bits // 8), meta("IntegerRange", minimum=lo, maximum=hi))


NAMED = {f"{AUX}{'' if s else 'u'}int{b}": fixed(b, s) for b in (8, 16, 32, 64) for s in (True, False)}
NAMED[AUX + "float32"] = pytype("float", meta("Storage", bytes=4))
NAMED[AUX + "float64"] = pytype("float", meta("Storage", bytes=8))
NAMED["strong_typing.core.JsonType"] = pytype("strong_typing.core.JsonType")


def plain(base: str) -> Ext:
    return pytype(base)


def domain(points: set[int]) -> Iterator[tuple[str, Ext, Need]]:
    for n, t in NAMED.items():
        if n.startswith(AUX + "int") or n.startswith(AUX + "uint"):
            r = dict(t.attrs)["metas"][2]
            yield n.rsplit(".", 1)[-1], t, Need("int", *(v for _, v in reversed(r.attrs)))
    yield "int", plain("int"), Need("int", -(1 << 63), (1 << 63) - 1)
    for b in (1, 2, 4, 8):
        yield f"int, Storage({b})", pytype("int", meta("Storage", bytes=b)), Need("int", -(1 << 8 * b - 1), (1 << 8 * b - 1) - 1)
        yield f"unsigned int, Storage({b})", pytype("int", meta("Signed", is_signed=False), meta("Storage", bytes=b)), Need("int", 0, (1 << 8 * b) - 1)
    for lo, hi in ((0, 10), (0, 255), (-128, 127), (0, 1 << 31), (-(1 << 63), (1 << 63) - 1)):
        yield f"int, IntegerRange({lo}, {hi})", pytype("int", meta("IntegerRange", minimum=lo, maximum=hi)), Need("int", lo, hi)
    yield "float", plain("float"), Need("float", 53)
    yield "float32", NAMED[AUX + "float32"], Need("float", 24)
    yield "float64", NAMED[AUX + "float64"], Need("float", 53)
    for d in range(1, 16):
        yield f"float, Precision({d})", pytype("float", meta("Precision", significant_digits=d, decimal_digits=0)), Need("float", d * math.log2(10))
    yield "Decimal", plain("decimal.Decimal"), Need("decimal", INF, INF)
    for p, s in ((1, 0), (5, 2), (10, 0), (18, 6), (38, 10)):
        yield f"Decimal, Precision({p}, {s})", pytype("decimal.Decimal", meta("Precision", significant_digits=p, decimal_digits=s)), Need("decimal", p, s)
    yield "str", plain("str"), Need("text", LONG)
    for n in sorted({x for p in points | {1, 255, 256, 4000, 8000, 65535, 65536} for x in (p - 1, p, p + 1) if 0 < x < 4294967296}):
        yield f"str, MaxLength({n})", pytype("str", meta("MaxLength", value=n)), Need("text", n)
    yield "datetime", plain("datetime.datetime"), Need("timestamp", 6)
    yield "time", plain("datetime.time"), Need("time", 6)
    for n in (0, 3, 6):
        yield f"datetime, TimePrecision({n})", pytype("datetime.datetime", meta("TimePrecision", decimal_digits=n)), Need("timestamp", n)
        yield f"time, TimePrecision({n})", pytype("datetime.time", meta("TimePrecision", decimal_digits=n)), Need("time", n)
    yield "bool", plain("bool"), Need("bool")
    yield "date", plain("datetime.date"), Need("date")
    yield "timedelta", plain("datetime.timedelta"), Need("interval")
    yield "UUID", plain("uuid.UUID"), Need("uuid", 16)
    yield "IPv4Address", plain("ipaddress.IPv4Address"), Need("ip4", 4)
    yield "IPv6Address", plain("ipaddress.IPv6Address"), Need("ip6", 16)
    yield "JSON", NAMED["strong_typing.core.JsonType"], Need("json", LONG)
    yield "bytes", plain("bytes"), Need("bytes", LONG)
    for n in (1, 16, 2000, 2001, 65535, 65536):
        yield f"bytes, Storage({n})", pytype("bytes", meta("Storage", bytes=n)), Need("bytes", n)


# -- what types hold

INTS = {"tinyint": 1, "smallint": 2, "integer": 4, "int": 4, "bigint": 8}
NO_TYPE: dict[str, set[str]] = {
    "postgresql": {"tinyint", "varbinary", "binary", "blob", "datetime", "clob"},
    "redshift": {"tinyint", "binary", "blob", "datetime", "clob", "uuid", "json", "jsonb", "inet", "interval"},
    "mysql": {"interval", "uuid", "inet", "boolean_", "number", "varbyte", "jsonb"},
    "mssql": {"interval", "uuid", "inet", "boolean", "json", "jsonb", "number", "blob", "clob"},
    "oracle": {"tinyint", "bigint", "text", "time", "uuid", "inet", "interval", "jsonb", "varbinary", "binary", "datetime", "double"},
    "snowflake": {"interval", "uuid", "inet", "json", "jsonb", "number_", "blob", "clob"},
    "delta": {"text", "time", "json", "jsonb", "uuid", "inet", "interval", "double precision", "timestamp", "blob", "clob", "datetime"},
    "trino": {"text", "inet", "interval", "blob", "clob", "datetime", "jsonb", "float"},
}
DECIMAL = {"postgresql": (INF, INF), "redshift": (18, 0), "mysql": (10, 0), "mssql": (18, 0), "oracle": (38, 0), "snowflake": (38, 0), "delta": (10, 0), "trino": (38, 0)}
# fractional digits of seconds when a type does not state them
SECONDS = {"postgresql": 6, "redshift": 6, "mysql": 0, "mssql": 7, "oracle": 6, "snowflake": 9, "delta": 6, "trino": 3}


def holds(dialect: str, text: str, need: Need) -> Optional[bool]:
    "Whether a column of a type holds the values, or None if the database does not have the type."
    m = re.fullmatch(r"\s*([a-z0-9_ ]+?)\s*(?:\(\s*(\d+|max)\s*(?:,\s*(\d+)\s*)?\))?((?: with(?:out)? time zone)?)\s*", text.lower())
    if m is None:
        return False
    name, p, s = m.group(1), m.group(2), m.group(3)
    if name in NO_TYPE.get(dialect, set()):
        return None
    k = need.kind
    num = None if p in (None, "max") else int(p)
    if name in INTS or name in ("number", "int1", "uint1", "uint2", "uint4", "uint8"):
        if k == "bool":
            return True
        if k not in ("int",):
            return False
        lo, hi = int_range(dialect, name, num)
        return lo <= need.a and need.b <= hi
    if name in ("real", "double precision", "double", "float"):
        if k != "float":
            return False
        return bits(dialect, name, num) >= need.a
    if name in ("decimal", "numeric"):
        have = (num, int(s or 0)) if num is not None else DECIMAL[dialect]
        if k == "int":
            return 10 ** (have[0] - have[1]) > max(abs(need.a), abs(need.b)) if have[0] != INF else True
        if k != "decimal":
            return False
        return have[1] >= need.b and (have[0] == INF or have[0] - have[1] >= need.a - need.b)
    if name in ("boolean", "bit", "bool"):
        return k == "bool"
    if name == "date":
        return k == "date"
    if name == "interval" or name == "interval day to second":
        return k == "interval" or k == "time" and name != "interval"
    if name in ("timestamp", "datetime", "datetime2", "timestamp_ntz"):
        if k == "date":
            return True
        return k == "timestamp" and (SECONDS[dialect] if num is None else num) >= need.a
    if name == "time":
        return k == "time" and (SECONDS[dialect] if num is None else num) >= need.a
    if name == "uuid":
        return k == "uuid"
    if name == "inet":
        return k in ("ip4", "ip6")
    if name in ("json", "jsonb", "variant"):
        return k == "json"
    have = size(dialect, text)
    if have is None:
        return None
    binary = any(x in name for x in ("bin", "blob", "raw", "varbyte"))
    if k in ("uuid", "ip4", "ip6", "bytes"):
        return binary and have >= need.a
    if k in ("text", "json"):
        return not binary and have >= need.a and not (name in ("char", "character", "nchar") and k == "text")
    return False


def int_range(dialect: str, name: str, p: Optional[int]) -> tuple[float, float]:
    if name == "number" or dialect == "snowflake" or dialect == "oracle":
        return (-INF, INF)
    if name.startswith("uint"):
        return 0, (1 << 8 * int(name[4:])) - 1
    if name == "int1":
        return -128, 127
    if name == "tinyint" and dialect == "mssql":
        return 0, 255
    b = 8 * INTS[name]
    return -(1 << b - 1), (1 << b - 1) - 1


def bits(dialect: str, name: str, p: Optional[int]) -> float:
    if name == "real":
        return {"mysql": 53, "snowflake": 53, "oracle": 63}.get(dialect, 24)
    if name == "float" and dialect == "delta":
        return 24
    if name == "float" and p is not None:
        return p if dialect == "oracle" else 24 if p <= 24 else 53
    return 53


# -- evaluation

def model(fin: Finite, t: T, env: dict[T, object]) -> object:
    "Library functions on Python types."
    if t.op == "extern":
        n = t.args[0]
        return NAMED.get(n, plain(n))
    if t.op == "call" and t.args[1] is None and isinstance(t.args[0], str) and t.args[0].startswith("strong_typing.inspection."):
        short = t.args[0].rsplit(".", 1)[-1]
        v = fin.value(t.args[2][0][1], env)
        if isinstance(v, Ext) and v.kind == "type":
            if short == "unwrap_annotated_type":
                return v if dict(v.attrs)["base"].endswith("JsonType") else plain(dict(v.attrs)["base"])
            if short in ("is_type_enum", "is_type_optional", "is_type_union", "is_type_literal"):
                return False
    if t.op == "attr" and t.args[1] == "__metadata__":
        v = fin.value(t.args[0], env)
        if isinstance(v, Ext) and v.kind == "type":
            return dict(v.attrs)["metas"] or None
    if t.op == "isinstance" and len(t.args) == 3:
        v, cs = fin.value(t.args[0], env), fin.value(t.args[2], env)
        if cs == ():
            return False
    return NotImplemented


def chosen(ctx: Ctx, fin: Finite, f: FuncInfo, c: ClassInfo, me: Obj, t: Ext) -> object:
    "The type that the function returns, with the annotations that reach it."
    r = fin.result(f, c)
    names = [a.arg for a in f.args.posonlyargs + f.args.args]
    env: dict[T, object] = {T("param", (names[0],)): me, T("param", (names[1],)): t}
    v = fin.call(f, c, {names[0]: me, names[1]: t})
    for e in events(r):
        if e.op == "call" and e.args[0].rsplit(".", 1)[-1] == "parse_meta" and e.args[1] is not None:
            loop = [x for x in e.pc if x.op == "each"]
            before = e.pc[: e.pc.index(loop[0])] if loop else e.pc
            if not all(fin.truth(x, env) for x in before):
                continue
            for m in fin.value(loop[0].args[0], env) if loop else [None]:  # type: ignore
                sub = dict(env)
                if loop:
                    sub[loop[0].args[1]] = m
                if all(fin.truth(x, sub) for x in e.pc if x.op != "each"):
                    a = fin.value(e.args[2][0][1], sub)
                    if not isinstance(v, Obj):
                        raise Undecided("annotation of no type")
                    v = annotate(fin, v, a)
    return v


def annotate(fin: Finite, o: Obj, m: object) -> Obj:
    "The type after it is given an annotation."
    f = o.cls.find_method("parse_meta")
    if f is None:
        raise AnalysisError(f"{o.cls.name} has no parse_meta")
    return apply(fin, f, o, m)


def apply(fin: Finite, f: FuncInfo, o: Obj, m: object) -> Obj:
    r = fin.result(f, o.cls)
    names = [a.arg for a in f.args.posonlyargs + f.args.args]
    env: dict[T, object] = {T("param", (names[0],)): o, T("param", (names[1],)): m}
    attrs = dict(o.attrs)
    for e in events(r):
        if e.op == "raise" and all(fin.truth(x, env) for x in e.pc):
            raise Raised(f"{o.cls.name} refuses {m}")
        if e.op == "setattr" and e.args[0] == T("param", (names[0],)) and all(fin.truth(x, env) for x in e.pc):
            attrs[e.args[1]] = fin.value(e.args[2], env)
        if e.op == "call" and e.args[0].startswith("super:") and isinstance(e.meta, FuncInfo) and e.meta.name == f.name and all(fin.truth(x, env) for x in e.pc):
            return apply(fin, e.meta, Obj(o.cls, tuple(sorted(attrs.items()))), m)
    for x in r.raises:
        if all(fin.truth(c, env) for c in getattr(x.state, "pc", ())):
            raise Raised(f"{o.cls.name} refuses {m}")
    return Obj(o.cls, tuple(sorted(attrs.items())))


def text(fin: Finite, o: object) -> str:
    if isinstance(o, Obj) and o.cls.is_subclass_of("SqlUserDefinedType"):
        ref = o.get("ref")
        if isinstance(ref, Obj):
            return str(dict(ref.attrs).get("local_id") or dict(ref.attrs).get("id") or next(iter(dict(ref.attrs).values())))
    return fin.text(o)


def check(ctx: Ctx) -> None:
    c = ctx.prog.find_class("DataclassConverter")
    f = c.find_method("simple_type_to_sql_data_type")
    if f is None:
        raise AnalysisError("no function maps simple types")
    fin = Finite(ctx, inline=lambda g, recv: g.name not in ("parse_meta", "__str__"), model=model)
    ctx.analysed(f)
    if not annotations(ctx, c, f):
        return
    points: set[int] = set()
    for k in ctx.prog.find_class("SqlDataType").all_subclasses():
        s = k.find_method("__str__")
        if s is not None:
            points |= {p for p in constants(fin.result(s, k)) if p > 16}
            ctx.analysed(s)
        m = k.find_method("parse_meta")
        if m is not None:
            ctx.analysed(m)
    done: dict[str, int] = {}
    for d, g, init in c05.generators(ctx):
        for options, extra in dialect_options(ctx, fin, d, g, init):
            me = Obj(c, (("options", options),))
            problems: dict[str, str] = {}
            n = 0
            for name, t, need in domain(points):
                n += 1
                label = re.sub(r"\(([^()]*)\)", "", name) if need.kind not in ("int",) else re.sub(r"IntegerRange\(.*\)", "IntegerRange", name)
                try:
                    o = chosen(ctx, fin, f, c, me, t)
                    if o is None:
                        raise Undecided(f"no type for {name}")
                    words = text(fin, o)
                except Raised:
                    ok: Optional[bool] = None
                    words = "(refused)"
                except Undecided as e:
                    raise AnalysisError(f"{f.short} for {name} in {d}: {e}")
                else:
                    ok = holds(d, words, need)
                ctx.count("types evaluated")
                key = f"{d}: {label}{' (extra types)' if extra else ''}"
                if ok is False:
                    shown = re.sub(r"\d+", "n", words) if need.kind != "int" else words
                    problems.setdefault(f"{key}: {shown}", f"a field of type {name} becomes a column of type {words}, which does not hold all of its values")
                elif ok:
                    done[key] = done.get(key, 0) + 1
            for key, why in sorted(problems.items()):
                ctx.bad("holds", key, f.loc(), why)
    for key in sorted(done):
        ctx.ok("holds", key, f.loc())
    ctx.minimum("types evaluated", 500)
    fields(ctx, c)


def dialect_options(ctx: Ctx, fin: Finite, d: str, g: ClassInfo, init: FuncInfo) -> Iterator[tuple[Obj, bool]]:
    oc = ctx.prog.find_class("DataclassConverterOptions")
    r = ctx.run(init, g, inline=c05.inline_ctor)
    seen = set()
    for o, pc in c05.converter_options(r):
        subs: dict[object, object] = {}
        s = o.get("substitutions")
        if s is not None:
            for v in variants(s):
                try:
                    subs = fin.value(v, {})  # type: ignore
                except (Undecided, Raised) as e:
                    raise AnalysisError(f"substitutes of {g.short}: {e}")
        for extra in ((False, True) if d == "postgresql" else (False,)):
            k = (str(subs), extra)
            if k in seen:
                continue
            seen.add(k)
            yield Obj(oc, (("extra_numeric_types", extra), ("skip_annotations", ()), ("substitutions", Table(subs)))), extra
    if not seen:
        raise AnalysisError(f"{g.short} does not make a converter")


class Table(dict):
    "A dictionary that may be an attribute."

    def __hash__(self) -> int:  # type: ignore
        return id(self)


def variants(t: T) -> Iterator[T]:
    if t.op == "phi":
        yield from variants(t.args[1])
        yield from variants(t.args[2])
    else:
        yield t


def annotations(ctx: Ctx, c: ClassInfo, f: FuncInfo) -> bool:
    "Every annotation reaches the type; loops that visit annotations do not end early."
    def annotates(g: FuncInfo, recv: Optional[T]) -> bool:
        return g.name != "parse_meta" and g is not f and any(isinstance(n, ast.Attribute) and n.attr == "parse_meta" for n in ast.walk(g.node))

    r = ctx.run(f, c, inline=annotates)
    found = 0
    sound = True
    for g in ctx.prog.functions():
        if g.module != f.module:
            continue
        for loop in ast.walk(g.node):
            if isinstance(loop, (ast.For, ast.While)) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "parse_meta" for b in loop.body for x in ast.walk(b)):
                ends = [x for x in own_statements(loop.body) if isinstance(x, (ast.Break, ast.Return))]
                ctx.check(not ends, "annotations", f"{g.short}: loop", g.loc(), "all annotations are visited" if not ends else f"annotations that follow the first are not visited (line {ends[0].lineno})")
                sound = sound and not ends
    for e in events(r):
        if e.op == "call" and e.args[0].rsplit(".", 1)[-1] == "parse_meta":
            found += 1
            loop = [x for x in e.pc if x.op == "each"]
            whole = bool(loop) and loop[0].args[0].op == "attr" and loop[0].args[0].args[1] == "__metadata__"
            after = e.pc[e.pc.index(loop[0]) + 1:] if loop else ()
            plain_conditions = all(skip_test(x) or x.op == "not" and not any(y == loop[0].args[1] for y in walk(x)) or not any(y == loop[0].args[1] for y in walk(x)) for x in after) if loop else False
            good = whole and plain_conditions and loop and e.args[2][0][1] == loop[0].args[1]
            sound = sound and bool(good)
            ctx.check(bool(good), "annotations", f.short, e.loc or f.loc(), "each annotation reaches the type" if good else f"an annotation may not reach the type: {[show(x)[:100] for x in e.pc][-3:]}")
    ctx.check(found > 0, "annotations", f"{f.short}: parse_meta", f.loc(), "annotations are taken into account" if found else "annotations are not taken into account")
    return sound and found > 0


def own_statements(body: list[ast.stmt]) -> Iterator[ast.stmt]:
    "The statements that belong to a loop, without those of loops and functions inside it (but returns of loops inside)."
    for s in body:
        yield s
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        if isinstance(s, (ast.For, ast.While)):
            yield from (x for x in own_statements(s.body) if isinstance(x, ast.Return))
            yield from own_statements(s.orelse)
            continue
        for name in ("body", "orelse", "finalbody"):
            yield from own_statements(getattr(s, name, []))
        for h in getattr(s, "handlers", []):
            yield from own_statements(h.body)


def skip_test(x: T) -> bool:
    return x.op == "not" and x.args[0].op == "isinstance" and "skip_annotations" in show(x.args[0])


def fields(ctx: Ctx, c: ClassInfo) -> None:
    f = c.find_method("member_to_column")
    if f is None:
        raise AnalysisError("no function makes columns")
    r = ctx.run(f, c)
    ctx.analysed(f)
    n = 0
    for v, pc in r.returns:
        for t in walk(v):
            if t.op in ("new", "newof", "call") and any(k == "data_type" for k, _ in (t.args[1] if t.op != "call" else t.args[2])):
                n += 1
                d = dict(t.args[1] if t.op != "call" else t.args[2])["data_type"]
                typ = dict(d.args[2]).get("typ", d.args[2][0][1]) if d.op == "call" and d.args[0].endswith("member_to_sql_data_type") else None
                # the properties of the declared type of the field
                good = typ is not None and typ.op == "attr" and typ.args[1] == "field_type" and any(x.op == "attr" and x.args[1] == "type" for x in walk(typ.args[0]))
                ctx.check(good, "fields", f.short, f.loc(), "the type of the column is that of the field" if good else f"the type of the column is not that chosen for the field: {show(d)[:160]}")
    if not n:
        raise AnalysisError(f"{f.short}: no column is made")
