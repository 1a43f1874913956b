"""
Decides that a data-class made from a database table declares what the table does.

The functions that make data-classes from tables are evaluated to terms. What they depend on is small: whether a column is (a part of)
the primary key, whether it is nullable, which kinds of constraints name it, whether a default and a description are given, whether the
table referenced is in the same namespace, and the class and parameters of a data type. The terms are evaluated on representatives of
all combinations, and compared with what the table calls for:

* `type`: each SQL type that the catalog readers make has a Python type, of its kind, that holds all its values
* `field`: a column has one field by its name; the type of the field is that of the column, or the class(es) of the table(s) referenced
  by a name that resolves in the module; it is marked as the primary key if it alone is the primary key, else optional if and only if
  the column is nullable; the default and the description are those of the column
* `class`: a data-class has all fields, those with a default last, and stands under its name in the module of its namespace
* `text`: the description of a table and those of its columns are part of the documentation of the class
"""

from __future__ import annotations

import ast
import itertools
import keyword
from typing import Iterator, Optional

from ..finite import Cls, Ext, Finite, Obj, Raised, Undecided
from ..framework import Ctx, events
from ..program import AnalysisError, ClassInfo, FuncInfo
from ..terms import T, show, walk

ASSUMPTIONS = [
    "int16, int32 and int64, float32 and float64, Length, MaxLength and other annotations of strong_typing.auxiliary mean what their names say",
    "a name resolves in the module that defines it; a name qualified with a module, wherever the module can be imported from",
    "a column that is one of several columns of a foreign key may have either type",
]


def py(name: str) -> Ext:
    return Ext("py", (("name", name),))


def generic(of: str, args: tuple) -> Ext:
    return Ext("generic", (("of", of), ("args", args)))


def parts(v: object) -> tuple[str, tuple]:
    if isinstance(v, Ext) and v.kind == "generic":
        d = dict(v.attrs)
        return str(d["of"]), d["args"]  # type: ignore
    return "", ()


def union(args: tuple) -> object:
    out: list = []
    for a in args:
        of, xs = parts(a)
        for x in xs if of == "Union" else (a,):
            if x not in out:
                out.append(x)
    return out[0] if len(out) == 1 else generic("Union", tuple(sorted(out, key=repr)))


NONE = py("None")
MISSING = py("MISSING")
SHORT = {"PrimaryKey", "Unique", "Identity"}


class Model:
    "Typing, data-classes and modules."

    def __init__(self, version: tuple = (3, 12)) -> None:
        self.version = version

    def __call__(self, fin: Finite, t: T, env: dict[T, object]) -> object:
        a = t.args
        if t.op in ("extern", "global"):
            name = str(a[0])
            short = name.rsplit(".", 1)[-1]
            if name == "sys.version_info":
                return self.version
            if name == "sys.modules":
                return Ext("modules", ())
            return py(short)
        if t.op == "const" and a[0] is None:
            return None
        if t.op == "sub":
            o, k = fin.value(a[0], env), fin.value(a[1], env)
            if isinstance(o, Ext) and o.kind == "modules":
                return Ext("module", (("__name__", k),))
            if isinstance(o, Ext) and o.kind == "py":
                of = str(dict(o.attrs)["name"])
                args = tuple(NONE if x is None else x for x in (k if isinstance(k, (tuple, list)) else (k,)))
                if of == "Optional":
                    if len(args) != 1:
                        raise Raised("Optional of several types")
                    return union(args + (NONE,))
                if of == "Union":
                    return union(args)
                if of == "Annotated" and args and parts(args[0])[0] == "Annotated":
                    return generic("Annotated", parts(args[0])[1] + args[1:])
                if of in ("List", "Set", "Dict"):
                    of = of.lower()
                return generic(of, args)
        if t.op == "binop" and a[0] == "BitOr":
            return union(tuple(NONE if x is None else x for x in (fin.value(a[1], env), fin.value(a[2], env))))
        if t.op == "loopout" and len(a) in (5, 6):
            src, bv, carried, init, body = a[:5]
            v = fin.value(init, env)
            for x in fin.value(src, env):  # type: ignore
                e = {**env, bv: x, carried: v}
                v = fin.value(body, e)
                if len(a) == 6 and fin.truth(a[5], e):
                    break
            return v
        if t.op == "found" and len(a) == 4:
            src, bv, cond, val = a
            for x in fin.value(src, env):  # type: ignore
                if fin.truth(cond, {**env, bv: x}):
                    return fin.value(val, {**env, bv: x})
            raise Undecided("nothing found")
        if t.op == "sorted" and a[1]:
            return self.sort(fin, t, env)
        if t.op == "call":
            return self.call(fin, t, env)
        if t.op == "newof":
            c = fin.value(a[0], env)
            if isinstance(c, Ext) and c.kind == "py":
                return Ext("made", (("name", dict(c.attrs)["name"]), ("args", tuple(fin.value(v, env) for _, v in a[1]))))
        if t.op == "attr" and a[1] == "default":
            o = fin.value(a[0], env)
            if isinstance(o, Ext) and o.kind == "field":
                return dict(o.attrs).get("default", MISSING)
        return NotImplemented

    def sort(self, fin: Finite, t: T, env: dict[T, object]) -> object:
        xs = list(fin.value(t.args[0], env))  # type: ignore
        opts = dict(t.args[1])
        key = opts.get("key")
        if not set(opts) <= {"key", "reverse"} or key is None or key.op not in ("closure", "func"):
            raise Undecided("sorted")
        f = key.args[0]
        name = [p.arg for p in f.args.posonlyargs + f.args.args][0]
        ks = [fin.call(f, None, {name: x}) for x in xs]
        if not all(isinstance(k, (bool, int, str, tuple)) for k in ks):
            raise Undecided("sort key")
        rev = bool(fin.value(opts["reverse"], env)) if "reverse" in opts else False
        return [xs[i] for i in sorted(range(len(xs)), key=lambda i: ks[i], reverse=rev)]  # type: ignore

    def call(self, fin: Finite, t: T, env: dict[T, object]) -> object:
        name, recv, args = str(t.args[0]), t.args[1], t.args[2]
        short = name.rsplit(".", 1)[-1]
        if recv is None and not isinstance(t.meta, FuncInfo):
            if name in ("tuple", "list") and len(args) == 1:
                v = fin.value(args[0][1], env)
                return tuple(v) if name == "tuple" else list(v)  # type: ignore
            if short == "iskeyword":
                v = fin.value(args[0][1], env)
                return keyword.iskeyword(str(v))
            if short == "issoftkeyword":
                return keyword.issoftkeyword(str(fin.value(args[0][1], env)))
            if short == "get_dialect":
                raise Undecided(name)
            vals = {k: fin.value(v, env) for k, v in args}
            if name in ("dataclasses.field",):
                return Ext("field", tuple(sorted(((k, freeze(v)) for k, v in vals.items()), key=lambda x: x[0])))
            if name == "dataclasses.make_dataclass":
                return Ext("dataclass", tuple(sorted(((k, freeze(v)) for k, v in vals.items()), key=lambda x: x[0])))
            if name in ("typing.cast",):
                return vals["1"]
            if name.startswith("strong_typing.") or name == "typing.ForwardRef":
                if name == "typing.ForwardRef":
                    return vals["0"]
                return Ext("made", (("name", short), ("args", tuple(vals.values()))))
            if name in ("importlib.import_module",):
                return Ext("module", (("__name__", vals["0"]),))
            return NotImplemented
        if recv is not None and short == "values" and not args:
            v = fin.value(recv, env)
            if isinstance(v, (list, tuple)):
                return list(v)
            if isinstance(v, dict):
                return list(v.values())
        if recv is not None and short == "items" and not args:
            v = fin.value(recv, env)
            if isinstance(v, dict):
                return [tuple(x) for x in v.items()]
            if isinstance(v, (list, tuple)):
                return [(x.get("name"), x) for x in v]  # type: ignore
        return NotImplemented


def freeze(v: object) -> object:
    if isinstance(v, dict):
        return tuple(sorted(((k, freeze(x)) for k, x in v.items()), key=repr))
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    return v


def inline(g: FuncInfo, recv) -> bool:
    if g.name in ("scope_id", "local_id", "compact_id", "quoted_id"):
        return False
    return g.cls is None or not g.cls.is_subclass_of("ObjectDict")


# -- types

def root(c: ClassInfo) -> Optional[str]:
    for k in c.project_mro():
        if k.module.name.endswith(".model.data_types"):
            return k.name
    return None


def base(v: object) -> tuple[str, tuple]:
    "The name of a type and its annotations."
    of, args = parts(v)
    if of == "Annotated":
        b, more = base(args[0])
        return b, more + args[1:]
    if of:
        return of, ()
    if isinstance(v, Ext):
        return str(dict(v.attrs)["name"]), ()
    if isinstance(v, Cls):
        return str(v.ref).rsplit(".", 1)[-1], ()
    return "", ()


INTEGERS = {"int": 10**3, "int64": 8, "int32": 4, "int16": 2, "int8": 1}
KINDS = {
    "SqlBooleanType": {"bool"}, "SqlIntegerType": set(INTEGERS), "SqlRealType": {"float", "float32", "float64"}, "SqlDoubleType": {"float", "float64"}, "SqlFloatType": {"float", "float64"},
    "SqlDecimalType": {"Decimal"}, "SqlTimestampType": {"datetime"}, "SqlDateType": {"date"}, "SqlTimeType": {"time"}, "SqlIntervalType": {"timedelta"}, "SqlFixedCharacterType": {"str"},
    "SqlVariableCharacterType": {"str"}, "SqlFixedBinaryType": {"bytes"}, "SqlVariableBinaryType": {"bytes"}, "SqlUuidType": {"UUID"}, "SqlJsonType": {"JsonType"}, "SqlEnumType": {"Literal", "str"},
    "SqlArrayType": {"list"},
}
BOUNDS = {"Length": "limit", "MaxLength": "limit", "TimePrecision": "precision"}


def discovered(ctx: Ctx) -> dict[ClassInfo, str]:
    "The classes of data types that the readers of the catalog make."
    prog = ctx.prog
    sdt = prog.find_class("SqlDataType")
    out: dict[ClassInfo, str] = {}
    for m in prog.modules.values():
        if not (m.name.endswith(".formation.data_types") or m.name.endswith(".discovery")):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                r = prog.resolve_expr(m, n.func)
                if isinstance(r, ClassInfo) and r.is_subclass_of(sdt):
                    out.setdefault(r, f"{m.relpath}:{n.lineno}")
    return out


def representatives(c: ClassInfo) -> Iterator[dict[str, object]]:
    "Attributes of data types of the class."
    r = root(c)
    free: dict[str, tuple] = {
        "SqlIntegerType": (("width", (1, 2, 3, 4, 8)),), "SqlFloatType": (("precision", (None, 1, 24, 53)),), "SqlDecimalType": (("precision", (None, 10)), ("scale", (None, 2))),
        "SqlTimestampType": (("precision", (None, 0, 6)), ("with_time_zone", (False, True))), "SqlTimeType": (("precision", (None, 0, 6)), ("with_time_zone", (False, True))),
        "SqlFixedCharacterType": (("limit", (None, 1, 255)),), "SqlVariableCharacterType": (("limit", (None, 1, 255)),), "SqlFixedBinaryType": (("storage", (None, 16)),),
        "SqlVariableBinaryType": (("storage", (None, 16)),), "SqlEnumType": (("values", (("a",), ("a", "b'"))),),
    }.get(str(r), ())
    names = [n for n, _ in free]
    for combo in itertools.product(*[vs for _, vs in free]):
        yield dict(zip(names, combo))


def check_types(ctx: Ctx) -> None:
    prog = ctx.prog
    f = prog.find_func("sql_type_to_python")
    fin = Finite(ctx, inline=inline, model=Model())
    ctx.analysed(f)
    made = discovered(ctx)
    made.setdefault(prog.find_class("SqlArrayType"), f.loc())
    param = [a.arg for a in f.args.posonlyargs + f.args.args][0]
    lid = prog.find_class("QualifiedId")
    for c in sorted(made, key=lambda c: c.qualname):
        r = root(c)
        if r is None or r in ("SqlDataType", "SqlStructType"):
            continue
        ctx.count("data types")
        values = [Obj(c, tuple(sorted(d.items()))) for d in representatives(c)]
        if r == "SqlUserDefinedType":
            values = [Obj(c, (("ref", Obj(lid, (("namespace", "ns"), ("id", "udt")))),))]
        if r == "SqlArrayType":
            item = prog.find_class("SqlIntegerType")
            values = [Obj(c, (("element_type", Obj(item, (("width", w),))),)) for w in (4, 8)]
        for o in values:
            try:
                v = fin.call(f, None, {param: o})
            except Raised:
                ctx.bad("type", c.name, f.loc(), f"{o}, which is made at {made[c]}, has no Python type")
                continue
            except Undecided as e:
                ctx.bad("type", f"{c.name}: undecided", f.loc(), f"the Python type of {o} cannot be decided: {e}")
                continue
            why = wrong(fin, r, o, v)
            ctx.check(why is None, "type", c.name, f.loc(), f"the Python type of {o} {why}")
    ctx.minimum("data types", 15)


def wrong(fin: Finite, r: str, o: Obj, v: object) -> Optional[str]:
    if r == "SqlUserDefinedType":
        return None if isinstance(v, str) and v.endswith("udt") else f"is {v}, not the name of the type"
    name, notes = base(v)
    if name not in KINDS.get(r, set()):
        return f"is {v}"
    if r == "SqlIntegerType" and INTEGERS[name] < int(o.get("width")):  # type: ignore
        return f"is {name}, which cannot hold all its values"
    if r == "SqlArrayType":
        args = parts(v)[1]
        w = o.get("element_type").get("width")  # type: ignore
        if len(args) != 1 or INTEGERS.get(base(args[0])[0], 0) < int(w):
            return f"has items of type {args}"
    if name == "Literal":
        if tuple(parts(v)[1]) != tuple(o.get("values")):  # type: ignore
            return f"is {v}, and not of the values of the enumeration"
    for n in notes:
        if isinstance(n, Ext) and n.kind == "made":
            d = dict(n.attrs)
            kind, args = str(d["name"]), d["args"]
            if kind in BOUNDS:
                have = o.get(BOUNDS[kind]) if BOUNDS[kind] in dict(o.attrs) else None
                if have is None or args != (have,):
                    return f"is limited by {kind}{args}"
    if r in ("SqlFixedCharacterType", "SqlVariableCharacterType"):
        bound = [n for n in notes if isinstance(n, Ext) and dict(n.attrs).get("name") in ("Length", "MaxLength")]
        if bool(bound) != (o.get("limit") is not None):
            return "does not have the limit of the column"
    return None


# -- fields

def escaped(name: str) -> str:
    return f"{name}_" if keyword.iskeyword(name) else name


class World:
    def __init__(self, ctx: Ctx) -> None:
        self.ctx = ctx
        self.prog = ctx.prog
        find = ctx.prog.find_class
        self.lid, self.qid = find("LocalId"), find("QualifiedId")
        self.here, self.there = Ext("module", (("__name__", "pkg.here"),)), Ext("module", (("__name__", "pkg.there"),))
        options = Obj(find("SqlConverterOptions"), (("namespaces", Namespaces((("ns", self.here), ("alias", self.here), ("other", self.there)))),))
        self.converter = Obj(find("SqlConverter"), (("options", options),))
        self.dtype = Obj(find("SqlVariableCharacterType"), (("limit", 10),))
        self.plain = generic("Annotated", (py("str"), Ext("made", (("name", "MaxLength"), ("args", (10,))))))

    def local(self, name: str) -> Obj:
        return Obj(self.lid, (("id", name),))

    def qual(self, ns: str, name: str) -> Obj:
        return Obj(self.qid, (("namespace", ns), ("id", name)))

    def column(self, name: str, nullable: bool = False, default: object = None, description: object = None, identity: bool = False) -> Obj:
        return Obj(self.prog.find_class("Column"), (("name", self.local(name)), ("data_type", self.dtype), ("nullable", nullable), ("identity", identity), ("default", default), ("description", description)))

    def ref(self, ns: str, name: str) -> Obj:
        return Obj(self.prog.find_class("ConstraintReference"), (("table", self.qual(ns, name)), ("columns", (self.local("id"),))))

    def foreign(self, columns: tuple[str, ...], ns: str, name: str) -> Obj:
        cols = tuple(self.local(c) for c in columns)
        return Obj(self.prog.find_class("ForeignConstraint"), (("name", self.local("fk_" + columns[0])), ("foreign_columns", cols), ("reference", self.ref(ns, name))))

    def discriminated(self, column: str, *refs: tuple[str, str]) -> Obj:
        return Obj(self.prog.find_class("DiscriminatedConstraint"), (("name", self.local("dk_" + column)), ("foreign_columns", (self.local(column),)), ("references", tuple(self.ref(*r) for r in refs))))

    def unique(self, column: str) -> Obj:
        return Obj(self.prog.find_class("UniqueConstraint"), (("name", self.local("uq_" + column)), ("unique_columns", (self.local(column),))))

    def check(self, column: str) -> Obj:
        return Obj(self.prog.find_class("CheckConstraint"), (("name", self.local("ck_" + column)), ("condition", "x")))

    def table(self, name: str, columns: tuple, pk: tuple[str, ...], constraints: tuple, description: object = None, ns: str = "ns") -> Obj:
        return Obj(self.prog.find_class("Table"), (("name", self.qual(ns, name)), ("columns", columns), ("primary_key", tuple(self.local(p) for p in pk)), ("constraints", constraints), ("description", description)))


class Namespaces(tuple):
    "A mapping of namespaces to modules."


class Here(Model):
    def __call__(self, fin: Finite, t: T, env: dict[T, object]) -> object:
        if t.op == "sub":
            o = fin.value(t.args[0], env)
            if isinstance(o, Namespaces):
                k = fin.value(t.args[1], env)
                for n, v in o:
                    if n == k:
                        return v
                raise Raised("no such namespace")
        if t.op == "call" and t.args[1] is not None and str(t.args[0]).rsplit(".", 1)[-1] == "get":
            o = fin.value(t.args[1], env)
            if isinstance(o, Namespaces):
                ks = [fin.value(v, env) for _, v in t.args[2]]
                return dict(o).get(*ks)
        return super().__call__(fin, t, env)


def check_fields(ctx: Ctx) -> None:
    prog = ctx.prog
    w = World(ctx)
    cls = prog.find_class("SqlConverter")
    f = prog.method(cls, "column_to_field")
    ctx.analysed(f)
    fin = Finite(ctx, inline=inline, model=Here())
    names = [a.arg for a in f.args.posonlyargs + f.args.args]

    def run(table: Obj, column: Obj) -> object:
        return fin.call(f, cls, {names[0]: w.converter, names[1]: table, names[2]: column})

    reported: set[str] = set()

    def report(ok: bool, construct: str, msg: str) -> None:
        if ok or construct not in reported:
            ctx.check(ok, "field", construct, f.loc(), msg)
        if not ok:
            reported.add(construct)

    cases: list[tuple[str, tuple, object, bool]] = [  # what it is, constraints, type referenced, either
        ("no constraint", (), None, False),
        ("unique", (w.unique("c"), w.check("c")), None, False),
        ("reference", (w.foreign(("c",), "ns", "ref"),), "ref", False),
        ("reference to a keyword", (w.foreign(("c",), "ns", "class"),), "class_", False),
        ("reference to itself", (w.foreign(("c",), "ns", "t"),), "t", False),
        ("reference in the same module", (w.foreign(("c",), "alias", "ref"),), "ref", False),
        ("reference to another namespace", (w.foreign(("c",), "other", "ref"),), "pkg.there.ref", False),
        ("reference of another column", (w.foreign(("d",), "ns", "ref"), w.discriminated("d", ("ns", "a"), ("ns", "b"))), None, False),
        ("reference among other constraints", (w.unique("c"), w.foreign(("d",), "ns", "refd"), w.foreign(("c",), "ns", "ref"), w.check("c"), w.foreign(("d",), "ns", "refe")), "ref", False),
        ("discriminated reference", (w.discriminated("c", ("ns", "a"), ("other", "b")),), union(("a", "pkg.there.b")), False),
        ("discriminated reference among other constraints", (w.foreign(("d",), "ns", "refd"), w.discriminated("c", ("ns", "a"), ("ns", "class")), w.unique("d")), union(("a", "class_")), False),
        ("part of a composite reference", (w.foreign(("c", "d"), "ns", "ref"),), "ref", True),
    ]
    for (what, cons, refers, either), pk, nullable, default, text, identity in itertools.product(cases, ((), ("c",), ("d",), ("c", "d")), (False, True), (None, "v"), (None, "text"), (False, True)):
        if nullable and "c" in pk or identity and (what != "no constraint" or default):
            continue
        col = w.column("c", nullable, default, text, identity)
        table = w.table("t", (w.column("d"), col), pk, cons)
        ctx.count("columns")
        key = f"column_to_field: {what}"
        try:
            v = run(table, col)
        except Raised as e:
            report(False, key, f"no field can be made for a column: {e}")
            continue
        except Undecided as e:
            report(False, f"{key}: undecided", f"the field of a column cannot be decided: {e}")
            continue
        if not (isinstance(v, tuple) and len(v) == 3):
            report(False, key, f"the field is {v}")
            continue
        t = v[1]
        of, args = parts(t)
        marked = of == "PrimaryKey"
        opt = of == "Union" and NONE in args
        core = args[0] if marked and len(args) == 1 else union(tuple(a for a in args if a != NONE)) if opt else t
        report(v[0] == "c", "column_to_field: name", f"the field is named {v[0]}")
        want = [refers] if refers is not None else [w.plain]
        if either:
            want.append(w.plain)
        report(core in want, key, f"the type of the field is {brief(core)}, where {brief(want[0])} is expected")
        if marked or opt:
            report(not (marked and opt), "column_to_field: primary key", "the primary key is optional")
        report(marked == (pk == ("c",)), "column_to_field: primary key", f"a column of a table with primary key {pk} is {'' if marked else 'not '}marked as the primary key ({what})")
        report(opt == nullable, "column_to_field: nullable", f"the field of a column that is {'nullable' if nullable else 'not nullable'} is {'optional' if opt else 'not optional'} ({what})")
    for name, default, description in itertools.product(("c", "class", "None", "cd"), (None, "v", 0, False, ""), (None, "text")):
        col = w.column(name, False, default, description)
        ctx.count("columns")
        try:
            v = run(w.table("t", (col,), (), ()), col)
        except (Undecided, Raised) as e:
            report(False, "column_to_field: undecided", f"the field of a column cannot be decided: {e}")
            continue
        if not (isinstance(v, tuple) and len(v) == 3 and isinstance(v[2], Ext) and v[2].kind == "field"):
            report(False, "column_to_field: value", f"the field is {v}")
            continue
        d = dict(v[2].attrs)
        report(v[0] == escaped(name), "column_to_field: name", f"the field of column {name} is named {v[0]}")
        got = d.get("default", MISSING)
        same = got == default and type(got) is type(default) if default is not None else got == MISSING
        report(same, "column_to_field: default", f"the field of a column with default {default!r} has the default {brief(got)}")
        meta = dict(d["metadata"]) if d.get("metadata") else {}
        report(meta.get("description") == description, "column_to_field: description", f"the field of a column with description {description!r} has {meta}")
    ctx.minimum("columns", 60)


def brief(v: object) -> str:
    of, args = parts(v)
    if of:
        return f"{of}[{', '.join(brief(a) for a in args)}]"
    if isinstance(v, Ext):
        d = dict(v.attrs)
        return str(d.get("name", v.kind)) + (str(d["args"]) if "args" in d else "")
    return str(v)


# -- classes

def check_classes(ctx: Ctx) -> None:
    prog = ctx.prog
    w = World(ctx)
    cls = prog.find_class("SqlConverter")
    f = prog.method(cls, "table_to_dataclass")
    ctx.analysed(f)
    names = [a.arg for a in f.args.posonlyargs + f.args.args]
    for version, (ns, mod), name, described in itertools.product(((3, 12), (3, 9)), (("ns", "pkg.here"), ("other", "pkg.there")), ("t", "class"), (None, "text")):
        fin = Finite(ctx, inline=inline, model=Here(version))
        columns = (w.column("a", default="x"), w.column("b", identity=True), w.column("c", True), w.column("d", True, default="y", identity=True), w.column("e", description="e"))
        table = w.table(name, columns, ("b",), (), described, ns)
        env: dict[T, object] = {T("param", (names[0],)): w.converter, T("param", (names[1],)): table}
        ctx.count("tables")
        try:
            v = fin.call(f, cls, {names[0]: w.converter, names[1]: table})
        except (Raised, Undecided) as e:
            ctx.bad("class", "table_to_dataclass: undecided", f.loc(), f"the data-class of a table cannot be decided: {type(e).__name__} {e}")
            continue
        if not (isinstance(v, Ext) and v.kind == "dataclass"):
            ctx.bad("class", "table_to_dataclass: value", f.loc(), f"the function returns {brief(v)}, not the class made")
            continue
        d = dict(v.attrs)
        ctx.check(d.get("0", d.get("cls_name")) == escaped(name), "class", "table_to_dataclass: name", f.loc(), f"the class made for table {name} is named {d.get('0')}")
        fields = d.get("1", d.get("fields")) or ()
        got = [x[0] for x in fields if isinstance(x, tuple)]
        ctx.check(sorted(got) == ["a", "b", "c", "d", "e"], "class", "table_to_dataclass: fields", f.loc(), f"the fields of a table with columns a, b, c, d, e are {got}")
        ctx.check([x for x in got if x in "bce"] == got[:3] and got[:3] == ["b", "c", "e"], "class", "table_to_dataclass: order", f.loc(), f"fields with and without defaults are in the order {got}; the latter must come first, in the order of columns")
        ctx.check(got[3:] == ["a", "d"], "class", "table_to_dataclass: order", f.loc(), f"fields with a default are in the order {got[3:]}")
        where = d.get("module")
        if where is None:
            where = dict(d.get("namespace") or ()).get("__module__")
        ctx.check(where == mod, "class", "table_to_dataclass: module", f.loc(), f"the class made for a table of namespace {ns} is in module {where}")
        if version < (3, 12):
            ctx.check("module" not in d, "class", "table_to_dataclass: version", f.loc(), "make_dataclass has no parameter `module` before Python 3.12")
        # registration
        r = fin.result(f, cls)
        stored = False
        for e in events(r):
            try:
                if e.op == "call" and e.args[0] == "setattr" and e.args[1] is None:
                    o, n, x = [fin.value(a, env) for _, a in e.args[2]]
                elif e.op == "setattr" and e.args[1] not in ("__doc__",) or e.op == "setitem":
                    o, n, x = fin.value(e.args[0], env), e.args[1], fin.value(e.args[2], env)
                    if isinstance(n, T):
                        n = fin.value(n, env)
                else:
                    continue
                if not all(fin.truth(p, env) for p in e.pc):
                    continue
            except (Undecided, Raised):
                continue
            if isinstance(o, Ext) and o.kind == "module" and x == v:
                stored = True
                ctx.check(dict(o.attrs)["__name__"] == mod and n == escaped(name), "class", "table_to_dataclass: stored", f.loc(), f"the class made for table {name} is stored as {n} in {dict(o.attrs)['__name__']}")
        ctx.check(stored, "class", "table_to_dataclass: stored", f.loc(), "the class made for a table is not stored in its module")
    ctx.minimum("tables", 8)
    check_text(ctx, f, cls, names)


def check_text(ctx: Ctx, f: FuncInfo, cls: ClassInfo, names: list[str]) -> None:
    "The documentation is made of the description of the table and those of the columns."
    r = ctx.run(f, cls, inline=inline)
    me = T("param", (names[1],))
    text = T("attr", (me, "description"))
    docs = [e for e in events(r) if e.op == "setattr" and e.args[1] == "__doc__"]
    docs += [e for e in events(r) if e.op == "call" and e.args[0] == "setattr" and e.args[1] is None and len(e.args[2]) == 3 and e.args[2][1][1] == T("const", ("__doc__",))]
    if not ctx.check(bool(docs), "text", "table_to_dataclass: documentation", f.loc(), "the class made has no documentation"):
        return

    def about(p: T, x: T) -> bool:
        "A condition that is met whenever x is a text that is not empty."
        return p == x or p.op == "not" and p.args[0].op == "isnone" and p.args[0].args[0] == x

    def present(pred, what: str) -> None:
        found, bad = False, None
        for e in events(r):
            if e.op in ("call", "setattr") and any(pred(x) for x in walk(e)):
                said = [a for _, a in e.args[2]] if e.op == "call" and str(e.args[0]).rsplit(".", 1)[-1] in ("write", "print", "append", "writelines", "extend") else []
                if e in docs:
                    said = [e.args[2]] if e.op == "setattr" else [e.args[2][2][1]]
                if not any(pred(x) for a in said for x in walk(a)):
                    continue
                extra = [p for p in e.pc if p.op != "each" and not any(pred(x) and about(p, x) for x in walk(p)) and not (p.op == "or" and any(about(q, x) for q in p.args for x in walk(q) if pred(x)))]
                if not extra:
                    found = True
                else:
                    bad = extra
        ctx.check(found, "text", f"table_to_dataclass: {what}", f.loc(), f"the {what} is not part of the documentation" + (f" unless {', '.join(map(show, bad))[:120]}" if bad else ""))

    present(lambda x: x == text, "description of the table")

    def column_text(x: T) -> bool:
        if x.op == "attr" and x.args[1] == "description" and x != text:
            return True
        if x.op == "call" and str(x.args[0]).rsplit(".", 1)[-1] == "get" and any(a == T("const", ("description",)) for _, a in x.args[2]):
            return True
        return x.op == "sub" and x.args[1] == T("const", ("description",))

    present(column_text, "description of a column")


def check(ctx: Ctx) -> None:
    check_types(ctx)
    check_fields(ctx)
    check_classes(ctx)
    if not ctx.prog.find_class("SqlConverter"):
        raise AnalysisError("no converter")
