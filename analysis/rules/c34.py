"""
Decides that the statements that create objects state every attribute of the definitions.

For each dialect, the classes of the objects are taken from the factory that its generator is constructed with. The text that each of
their statement builders returns is extracted and spelled out in variants, and examined under every combination of the attributes.

* `column`: name, type, and the clauses for nullability, default, identity and description, exactly when the definition has them.
* `table`: all columns in order and the primary key; `comments`: descriptions of tables and columns.
* `constraints`: the columns, the references and the conditions of constraints; all constraints are added.
* `enum`, `struct`, `lookup`: all values and members in order.
* `address`: statements that drop or rename an object address the object itself; what is renamed for deletion is what is dropped later.
* `actions`: an ALTER TABLE statement has one action in dialects that take no more.
* `whole`: a namespace creates all of its objects, and a catalog all of its namespaces before their objects.
"""

from __future__ import annotations

import itertools
import re
from typing import Optional

from ..common import conj_parts, hierarchy, method_name, pc_under, truth_under
from ..framework import Ctx
from ..program import AnalysisError, ClassInfo, FuncInfo
from ..sqltext import Hole, Rep, Variant, variants
from ..terms import T, rewrite, show, walk
from . import c05
from .c08 import BV, canon_conds, source, subst, trim

ASSUMPTIONS = [
    "an identity column does not take NULL in any of the databases, with or without the words NOT NULL",
    "Delta columns take no default unless a table property is set; SQL Server, Oracle and Trino statements have no comment clause in the library",
    "the column types of the library write themselves completely (C30, C33) and quoting functions keep the text (C02)",
]
ME = T("param", ("self",))
IDENTITY = {
    "mysql": "AUTO_INCREMENT", "mssql": r"IDENTITY(?:\(1, ?1\))?", "snowflake": r"(?:IDENTITY|AUTOINCREMENT)",
}
GENERATED = r"GENERATED (?:BY DEFAULT|ALWAYS) AS IDENTITY"
COLUMN_COMMENT = {"mysql", "snowflake", "delta"}
TABLE_COMMENT = {"mysql": "COMMENT ?=? ?", "snowflake": "COMMENT ?= ?", "delta": "COMMENT "}
SEPARATE_COMMENT = {"postgresql", "redshift"}
NO_DEFAULT = {"delta"}
NAMES = frozenset("rename scope_id local_id compact_id quoted_id quote is_alter_table get_value_columns primary_key_constraint_id default_constraint_name".split())
KINDS = ("column_class", "table_class", "enum_table_class", "struct_class", "namespace_class")


def me(name: str) -> T:
    return T("attr", (ME, name))


def inline(g: FuncInfo, recv) -> bool:
    if g.name in NAMES or g.name in ("values", "keys", "items", "get"):
        return False
    if g.cls is None:
        return g.module.name.endswith("object_types") and not re.search("quot|constant|deleted", g.name)
    if g.name == "__str__":
        return True
    return True


def attrs(t: T, name: str) -> bool:
    return t == me(name)


class Object:
    "A class of objects of a dialect."

    def __init__(self, ctx: Ctx, dialect: str, cls: ClassInfo) -> None:
        self.ctx, self.dialect, self.cls = ctx, dialect, cls

    def method(self, name: str) -> FuncInfo:
        f = self.cls.find_method(name)
        if f is None:
            raise AnalysisError(f"{self.cls.name}.{name} is missing")
        return f

    def text(self, name: str) -> list[Variant]:
        f = self.method(name)
        self.ctx.analysed(f)
        r = self.ctx.run(f, self.cls, inline=inline)
        out: list[Variant] = []
        for v, pc in r.returns:
            out += variants(v, tuple(pc))
        return out

    def verdict(self, ok: bool, rule: str, what: str, f: FuncInfo, why: str) -> None:
        self.ctx.check(ok, rule, f"{self.dialect}: {self.cls.name}.{what}", f.loc(), why)


# -- shapes

def strip(t: T) -> T:
    "A value that is written as text."
    while t.op in ("str", "copy", "strof") and t.args and isinstance(t.args[0], T):
        t = t.args[0]
    if t.op == "tmpl" and len(t.args) == 1 and isinstance(t.args[0], T):
        return strip(t.args[0])
    if t.op == "fmt" and len(t.args) == 3 and not t.args[1]:
        return strip(t.args[0])
    if t.op == "attr" and t.args[1] == "quoted_id":
        # the text of an identifier
        return strip(t.args[0])
    return t


def rep_of(p, sep: str) -> Optional[tuple[T, frozenset, list]]:
    "Source, conditions and element of a repetition with the separator."
    if not isinstance(p, Rep) or norm(p.sep) != norm(sep) or len(p.loops) != 1:
        return None
    src, bv = p.loops[0]
    src, sub, conds = source(src, bv)
    elem = [x if isinstance(x, str) else Hole(strip(subst(x.term, sub))) if isinstance(x, Hole) else x for x in p.elem]
    conds = conds | canon_conds(p.conds, sub)
    v = values_of(src)
    return v if v is None else (v, conds, elem)  # type: ignore


def values_of(src: T) -> T:
    "The collection whose values are visited."
    src = trim(src)
    if src.op == "call" and method_name(src) == "values" and src.args[1] is not None and not src.args[2]:
        return values_of(src.args[1])
    if src.op == "attr" and src.args[1] == "_items":
        return values_of(src.args[0])
    return src


def norm(s: str) -> str:
    return re.sub(r"\s+", " ", s)


def clauses(parts: list) -> str:
    "Text with holes, spaces normalised."
    out = "".join(p if isinstance(p, str) else f"⟨{i}⟩" if isinstance(p, Hole) else f"«{i}»" for i, p in enumerate(parts))
    return norm(out).strip()


# -- columns

CLAUSE = re.compile(
    r"(?P<null>NOT NULL)|(?P<default>(?:CONSTRAINT ⟨(?P<dname>\d+)⟩ )?DEFAULT (?P<ts>TIMESTAMP )?⟨(?P<dhole>\d+)⟩)|(?P<identity>GENERATED (?:BY DEFAULT|ALWAYS) AS IDENTITY|AUTO_INCREMENT|AUTOINCREMENT|IDENTITY(?:\(1, ?1\))?)|(?P<comment>COMMENT ⟨(?P<chole>\d+)⟩)|(?P<charset>CHARACTER SET ascii COLLATE ascii_bin)"
)


def column(o: Object) -> None:
    for name, lead in (("__str__", ""), ("create_stmt", "ADD" if o.dialect in ("mssql", "oracle") else "ADD COLUMN")):
        f = o.method(name)
        problems: list[str] = []
        seen = 0
        vs = o.text(name)
        for nullable, identity, default, description, enum in itertools.product((True, False), repeat=5):
            env: dict[T, T] = {
                me("nullable"): T("const", (nullable,)), me("identity"): T("const", (identity,)),
                T("isnone", (me("default"),)): T("const", (not default,)), T("isnone", (me("description"),)): T("const", (not description,)),
                me("description"): T("const", ("x" if description else None,)),
            }
            if default and identity:
                continue
            found = 0
            for v in vs:
                pc = [c for c in v.pc]
                if pc_under(pc, env) is False or any(enum_test(c) not in (None, enum) for c in pc):
                    continue
                found += 1
                why = column_text(o.dialect, v, lead, nullable, identity, default, description, enum)
                if why and why not in problems:
                    problems.append(why)
            if not found:
                problems.append("no text")
            seen += found
        o.ctx.count("column variants", seen)
        o.verdict(not problems, "column", name, f, "the column is stated with all of its attributes" if not problems else problems[0])


def enum_test(c: T) -> Optional[bool]:
    "Truth of a test whether the type of the column is an enumeration."
    if c.op == "not":
        r = enum_test(c.args[0])
        return None if r is None else not r
    if c.op == "isinstance" and c.args[0] == me("data_type") and "SqlEnumType" in show(c):
        return True
    return None


def column_spec(dialect: str, v: Variant) -> Optional[str]:
    "A column that is renamed is stated completely (MySQL)."
    for bits in itertools.product((True, False), repeat=5):
        nullable, identity, default, description, enum = bits
        if default and identity:
            continue
        env = {me("nullable"): T("const", (nullable,)), me("identity"): T("const", (identity,)), T("isnone", (me("default"),)): T("const", (not default,)), T("isnone", (me("description"),)): T("const", (not description,)), me("description"): T("const", ("x" if description else None,))}
        if pc_under(v.pc, env) is False or any(enum_test(c) not in (None, enum) for c in v.pc):
            continue
        why = column_text(dialect, v, r"CHANGE ⟨\d+⟩", nullable, identity, default, description, enum)
        if why:
            return why
    return None


def column_text(dialect: str, v: Variant, lead: str, nullable: bool, identity: bool, default: bool, description: bool, enum: bool) -> Optional[str]:
    text = clauses(v.parts)
    what = f"for {'a nullable' if nullable else 'a required'}{' identity' if identity else ''} column{' with a default' if default else ''}{' with a description' if description else ''}"
    m = re.match(rf"{lead}{' ' if lead else ''}⟨(\d+)⟩ ⟨(\d+)⟩", text)
    if m is None or not (strip(v.parts[int(m.group(1))].term) == me("name") or lead.startswith("CHANGE")) or strip(v.parts[int(m.group(2))].term) != me("data_type"):
        return f"name and type of the column do not lead the text: {text}"
    rest = text[m.end():]
    got: dict[str, int] = {}
    pos = 0
    while pos < len(rest):
        if rest[pos] == " ":
            pos += 1
            continue
        k = CLAUSE.match(rest, pos)
        if k is None or pos > 0 and rest[pos - 1] != " ":
            return f"unexpected text {what}: {rest[pos:]}"
        kind = next(n for n in ("null", "default", "identity", "comment", "charset") if k.group(n))
        if kind in got:
            return f"{kind} is stated twice {what}"
        got[kind] = pos
        if kind == "default":
            t = strip(v.parts[int(k.group("dhole"))].term)
            if t != me("default"):
                return f"the default is not that of the column {what}: {show(t)[:80]}"
            if k.group("ts") and not (dialect in ("oracle", "snowflake") and any("SqlTimestampType" in show(c) for c in v.pc)):
                return f"the default is made a timestamp {what}"
        if kind == "comment":
            why = described(dialect, v.parts[int(k.group("chole"))].term, ME, v.pc)
            if why:
                return f"{why} {what}"
        if kind == "identity" and not re.fullmatch(IDENTITY.get(dialect, GENERATED), k.group("identity")):
            return f"the identity clause is not that of the dialect: {k.group('identity')}"
        pos = k.end()
    want = {
        "null": None if identity else not nullable,
        "default": default if dialect not in NO_DEFAULT else None,
        "identity": identity,
        "comment": description and dialect in COLUMN_COMMENT,
        "charset": enum and dialect == "mysql",
    }
    if identity and nullable and "null" in got:
        want["null"] = False
    for kind, w in want.items():
        if w is not None and (kind in got) != w:
            return f"{kind} is {'not stated' if w else 'stated'} {what}: {text}"
    if dialect == "oracle" and "default" in got and "null" in got and got["default"] > got["null"]:
        return "Oracle takes the default before NOT NULL"
    if "charset" in got and got["charset"] > min(got.values()):
        return "MySQL takes the character set right after the type"
    return None


def described(dialect: str, t: T, owner: T, pc: tuple) -> Optional[str]:
    "The text is the quoted description of the owner (MySQL: its first line)."
    d = T("attr", (owner, "description"))
    t = strip(t)
    if t.op != "call" or t.args[1] is not None or "quot" not in t.args[0]:
        return f"the comment is not quoted: {show(t)[:80]}"
    a = strip(t.args[2][0][1])
    if a == d:
        return None
    if dialect == "mysql" and first_line(a, d):
        return None
    return f"the comment is not the description: {show(a)[:80]}"


def first_line(a: T, d: T) -> bool:
    "A value that is the first line of the text."
    lf = T("const", ("\n",))
    if a == d:
        return True
    if a.op == "phi":
        if a.args[0] == T("isnone", (d,)) and a.args[1] == T("const", (None,)):
            return first_line(a.args[2], d)
        if a.args[0] == T("not", (T("isnone", (d,)),)) and a.args[2] == T("const", (None,)):
            return first_line(a.args[1], d)
        c = a.args[0]
        while c.op == "not":
            c = c.args[0]
        return c.op in ("in", "isnone") and d in list(walk(c)) and first_line(a.args[1], d) and first_line(a.args[2], d)
    if a.op == "slice" and first_line(a.args[0], d) and (a.args[1] is None or a.args[1] == T("const", (None,)) or a.args[1] == T("const", (0,))):
        e = a.args[2]
        return isinstance(e, T) and method_name(e).lstrip(".") in ("index", "find") and lf in list(walk(e))
    if a.op in ("sub", "item") and isinstance(a.args[0], T) and show(a.args[1]) == "0":
        c = a.args[0]
        return (method_name(c).lstrip(".") in ("split", "partition", "splitlines") or c.op == "strop") and d in list(walk(c))
    return False


# -- tables

def comment_cases(variants_: list[Variant], d: T) -> list[tuple[bool, Variant]]:
    "Variants for an object with and without a description."
    out = []
    for v in variants_:
        # the first line stands for the text
        v.pc = tuple(rewrite(c, lambda x: d if x != d and x.op in ("phi", "slice", "sub") and first_line(x, d) else None) for c in v.pc)
    for described_ in (True, False):
        env: dict[T, T] = {T("isnone", (d,)): T("const", (not described_,)), d: T("const", ("x" if described_ else None,))}
        for v in variants_:
            if pc_under(v.pc, env) is not False:
                out.append((described_, v))
    return out


H = r"⟨(\d+)⟩"
R = r"«(\d+)»"
CREATE = re.compile(rf"CREATE TABLE {H} ?\( ?{R}, CONSTRAINT {H} PRIMARY KEY ?\( ?{R} ?\) ?\)")


def table(o: Object, lookup: bool) -> None:
    f = o.method("create_stmt")
    problem: Optional[str] = None
    n = 0
    vs = o.text("create_stmt")
    for has, v in comment_cases(vs, me("description")):
        n += 1
        why = table_text(o.dialect, v, has, lookup)
        problem = problem or why
    o.ctx.count("table variants", n)
    if not n:
        problem = "no statement"
    o.verdict(problem is None, "table", "create_stmt", f, problem or "all columns and the primary key are stated" + (" with comments" if o.dialect in TABLE_COMMENT or o.dialect in SEPARATE_COMMENT else ""))


def column_elem(elem: list) -> bool:
    "The complete text of a column."
    if len(elem) == 1 and isinstance(elem[0], Hole):
        t = elem[0].term
        return t == BV or t.op == "attr" and t.args[0] == BV and t.args[1] == "column_spec" or t.op == "call" and method_name(t) in ("__str__", "column_spec") and t.args[1] == BV
    if len(elem) == 3 and all(isinstance(elem[i], Hole) for i in (0, 2)):
        return elem[0].term == T("attr", (BV, "name")) and norm(elem[1]) == " " and elem[2].term == T("attr", (BV, "data_spec"))
    return False


def is_all(p, sep: str, collection: T, elem) -> Optional[str]:
    "Why the repetition does not have all elements of the collection in order."
    r = rep_of(p, sep)
    if r is None:
        return "is not a list with the right separator"
    src, conds, e = r
    if src != collection:
        return f"is not made of {show(collection)} in order: {show(src)[:80]}"
    if conds:
        return f"leaves out items: {[show(c[0])[:60] for c in conds]}"
    if not elem(e):
        return f"does not state each item: {e}"
    return None


def name_elem(e: list) -> bool:
    return len(e) == 1 and isinstance(e[0], Hole) and e[0].term in (BV,)


def table_text(dialect: str, v: Variant, has: bool, lookup: bool) -> Optional[str]:
    text = clauses(v.parts)
    m = CREATE.match(text)
    if m is None:
        return f"not a table definition: {text[:160]}"
    part = [v.parts[int(g)] for g in m.groups()]
    if strip(part[0].term) != me("name"):
        return f"another table is created: {show(part[0].term)[:80]}"
    why = is_all(part[1], ", ", me("columns"), column_elem)
    if why:
        return f"the list of columns {why}"
    key = part[2].term
    if not names_key(key):
        return f"the name of the primary key: {show(key)[:80]}"
    why = is_all(part[3], ", ", me("primary_key"), name_elem)
    if why:
        return f"the primary key {why}"
    rest = text[m.end():].strip()
    if dialect in TABLE_COMMENT:
        c = re.match(rf"{TABLE_COMMENT[dialect]}{H}", rest)
        if c is None and has:
            return f"the description of the table is not stated: {rest[:60]}"
        if c is not None:
            if not has:
                return "a comment without a description"
            why = described(dialect, v.parts[int(c.group(1))].term, ME, v.pc)
            if why:
                return why
            rest = rest[c.end():].strip()
    if not rest.startswith(";"):
        return f"unexpected text after the table: {rest[:80]}"
    rest = rest[1:].strip()
    if dialect in SEPARATE_COMMENT:
        c = re.match(rf"COMMENT ON TABLE {H} IS {H};", rest)
        if (c is not None) != has:
            return "the description of the table is not stated" if has else "a comment without a description"
        if c is not None:
            if strip(v.parts[int(c.group(1))].term) != me("name"):
                return "the comment is on another table"
            why = described(dialect, v.parts[int(c.group(2))].term, ME, v.pc)
            if why:
                return why
            rest = rest[c.end():].strip()
        c = re.match(R, rest)
        if c is None:
            return "descriptions of columns are not stated"
        why = member_comments(dialect, v.parts[int(c.group(1))], me("columns"))
        if why:
            return why
        rest = rest[c.end():].strip()
    if lookup:
        c = re.fullmatch(rf"INSERT INTO {H} ?\( ?{R} ?\) VALUES ((?:{R}(?:, )?)+);", rest)
        if c is None:
            return f"the values are not inserted: {rest[:80]}"
        if strip(v.parts[int(c.group(1))].term) != me("name"):
            return "values are inserted in another table"
        r = rep_of(v.parts[int(c.group(2))], ", ")
        if r is None or not value_columns(r):
            return "values are not inserted in the value columns"
        why = lookup_values([v.parts[int(i)] for i in re.findall(R, c.group(3))])
        if why:
            return why
        rest = ""
    return f"unexpected text after the table: {rest[:80]}" if rest else None


def names_key(t: T) -> bool:
    return t.op == "attr" and t.args == (ME, "primary_key_constraint_id") or t.op == "new" and t.args[0].name == "LocalId" and "pk_" in show(t) or t.op == "call" and method_name(t) == "primary_key_constraint_id"


def member_comments(dialect: str, p, collection: T) -> Optional[str]:
    if not isinstance(p, Rep) or len(p.loops) != 1 or norm(p.sep) != " ":
        return "descriptions of members are not stated"
    src, bv = p.loops[0]
    if values_of(src) != collection:
        return f"descriptions are not those of {show(collection)}: {show(src)[:60]}"
    d = T("attr", (bv, "description"))
    for has in (True, False):
        env: dict[T, T] = {T("isnone", (d,)): T("const", (not has,)), d: T("const", ("x" if has else None,))}
        if pc_under(p.conds, env) is not has:
            return f"a member {'with' if has else 'without'} a description is {'not commented' if has else 'commented'}"
    t = clauses(p.elem)
    m = re.fullmatch(rf"COMMENT ON COLUMN {H}\.{H} IS {H};", t)
    if m is None:
        return f"not a comment: {t}"
    if strip(p.elem[int(m.group(1))].term) != me("name") or strip(p.elem[int(m.group(2))].term) != T("attr", (bv, "name")):
        return "the comment is on another column"
    return described(dialect, p.elem[int(m.group(3))].term, bv, ())


def value_columns(r: tuple) -> bool:
    src, conds, elem = r
    if len(elem) != 1 or not isinstance(elem[0], Hole) or elem[0].term != T("attr", (BV, "name")):
        return False
    if src.op == "call" and method_name(src) == "get_value_columns" and src.args[1] == ME:
        return not conds
    return src == me("columns") and len(conds) == 2


def lookup_values(reps: list) -> Optional[str]:
    "One list of values, whose rows may have alternative forms."
    loops = {r.loops[0] for r in reps if len(r.loops) == 1}
    if len(loops) != 1 or any(len(r.loops) != 1 or norm(r.sep) != ", " for r in reps):
        return "not one list of values"
    src, bv = next(iter(loops))
    if values_of(src) != me("values"):
        return f"not the list of values: {show(src)[:80]}"
    for r in reps:
        shape = clauses(r.elem)
        if not re.fullmatch(r"⟨\d+⟩|\(⟨\d+⟩\)", shape):
            return f"not a row of values: {shape}"
        t = next(k.term for k in r.elem if isinstance(k, Hole))
        if t.op != "call" or not t.args[0].endswith("constant") or t.args[2][0][1] != bv:
            return f"not the value as a constant: {show(t)[:80]}"
    tests = sorted({a for r in reps for c in r.conds for a in atoms(c)}, key=show)
    for bits in itertools.product((True, False), repeat=len(tests)):
        env = {a: T("const", (b,)) for a, b in zip(tests, bits)}
        n = sum(pc_under(r.conds, env) is not False for r in reps)
        if n != 1:
            return "a value is left out" if n == 0 else "a value is inserted twice"
    return None


def atoms(c: T) -> set[T]:
    if c.op in ("not", "and", "or", "phi"):
        return {a for x in c.args if isinstance(x, T) for a in atoms(x)}
    return {c}


# -- constraints

SPECS = {
    "UniqueConstraint": [rf"{H} UNIQUE ?\( ?{R} ?\)", [("name",), ("unique_columns",)]],
    "ForeignConstraint": [rf"{H} FOREIGN KEY ?\( ?{R} ?\) REFERENCES {H} ?\( ?{R} ?\)", [("name",), ("foreign_columns",), ("reference", "table"), ("reference", "columns")]],
    "CheckConstraint": [rf"{H} CHECK ?\( ?{H} ?\)", [("name",), ("condition",)]],
}


def path(names: tuple) -> T:
    t = ME
    for n in names:
        t = T("attr", (t, n))
    return t


def constraint_specs(ctx: Ctx) -> None:
    for c in hierarchy(ctx.prog, "Constraint"):
        f = c.find_method("spec")
        if f is None or f.is_abstract:
            continue
        o = Object(ctx, "all", c)
        g = o.method("__str__")
        r = ctx.run(g, c, inline=lambda h, recv: False)
        good = all([clauses(w.parts) == "CONSTRAINT ⟨1⟩" and w.parts[1].term in (me("spec"), T("call", ())) for w in variants(v)] == [True] for v, _ in r.returns)
        o.verdict(good, "constraints", "__str__", g, "the text of a constraint is its specification" if good else "the text of a constraint is not its specification")
        alter = c.find_method("is_alter_table")
        a = ctx.run(alter, c) if alter is not None else None
        if a is not None:
            ctx.analysed(alter)
        base = next((b.name for b in [c] + c.project_mro() if b.name in SPECS), None)
        added = a is not None and a.returns != [] and all(v == T("const", (True,)) for v, _ in a.returns)
        if base is None:
            r = ctx.run(f, c)
            ctx.analysed(f)
            silent = bool(r.returns)
            o.verdict(not silent or added, "constraints", "spec", f, "a constraint that has no SQL form is refused" if not silent else "added" if added else "a constraint is neither added nor refused")
            continue
        pattern, fields = SPECS[base]
        problem: Optional[str] = None
        vs = o.text("spec")
        for v in vs:
            m = re.fullmatch(pattern, clauses(v.parts))
            if m is None:
                problem = f"not the form of the constraint: {clauses(v.parts)}"
                break
            for g, names in zip(m.groups(), fields):
                p = v.parts[int(g)]
                want = path(names)
                if isinstance(p, Hole):
                    if strip(p.term) != want:
                        problem = f"states {show(p.term)[:60]} instead of {show(want)}"
                else:
                    why = is_all(p, ", ", want, name_elem)
                    problem = problem or (why and f"{'.'.join(names)} {why}")
        if not vs:
            problem = "no text"
        o.verdict(problem is None, "constraints", "spec", f, problem or "the constraint is stated with all of its attributes")
        assert alter is not None
        o.verdict(added, "constraints", "is_alter_table", alter, "the constraint is added to its table" if added else "the constraint is not added to its table")


SINGLE = {"oracle", "redshift", "snowflake", "delta", "trino"}


def add_constraints(o: Object) -> None:
    for name, verb, attr, done in (("add_constraints_stmt", "ADD", "spec", "added"), ("drop_constraints_stmt", "DROP", "name", "dropped")):
        f = o.method(name)
        problem: Optional[str] = None
        found = 0
        many = False
        for v in o.text(name):
            if not v.parts:
                # nothing is done only if there are no constraints
                tests = {a: T("const", (True,)) for c in v.pc for a in atoms(c) if mentions_constraints(a)}
                if pc_under(v.pc, tests) is not False:
                    problem = f"constraints are not {done} on some path"
                continue
            found += 1
            many = many or "ALTER TABLE" in clauses(v.parts)
            problem = problem or altered(v, verb, attr)
        if not found:
            problem = f"constraints are not {done}"
        o.verdict(problem is None, "constraints", name, f, problem or f"every constraint is {done}")
        if problem is None and o.dialect in SINGLE and not o.cls.is_subclass_of("EnumTable"):
            o.verdict(not many, "actions", name, f, "one action in each statement" if not many else "several actions in one statement, of which the database takes only one")


def alter(o: Object) -> None:
    "Actions on a table, each of them kept."
    f = o.method("alter_table_stmt")
    names = [a.arg for a in f.args.posonlyargs + f.args.args]
    given = T("param", (names[1],))
    problem: Optional[str] = None
    many = False
    vs = o.text("alter_table_stmt")
    for v in vs:
        text = clauses(v.parts)
        one = re.fullmatch(rf"ALTER TABLE {H} {R};", text)
        rep = v.parts[int(one.group(2))] if one else v.parts[0] if len(v.parts) == 1 and isinstance(v.parts[0], Rep) else None
        if rep is None:
            problem = f"not a change of a table: {text[:100]}"
            continue
        inner = clauses(rep.elem)
        k = re.fullmatch(H if one else rf"ALTER TABLE {H} {H};", inner)
        many = many or one is not None
        who = v.parts[int(one.group(1))] if one else rep.elem[int(k.group(1))] if k else None
        if k is None or norm(rep.sep) != (", " if one else " ") or len(rep.loops) != 1 or rep.conds or trim(rep.loops[0][0]) != given or strip(rep.elem[int(k.groups()[-1])].term) != rep.loops[0][1]:
            problem = f"actions are lost: {text[:60]} {inner[:60]}"
        elif strip(who.term) != me("name"):
            problem = "another table is changed"
    o.verdict(problem is None and bool(vs), "address", "alter_table_stmt", f, problem or "all actions apply to the table")
    if problem is None and o.dialect in SINGLE:
        o.verdict(not many, "actions", "alter_table_stmt", f, "one action in each statement" if not many else "several actions in one statement, of which the database takes only one")


def mentions_constraints(c: T) -> bool:
    return any(x == me("constraints") for x in walk(c)) or any(x.op == "attr" and x.args == (ME, "table_constraints") for x in walk(c))


def altered(v: Variant, verb: str, attr: str) -> Optional[str]:
    text = clauses(v.parts)
    one = re.fullmatch(rf"ALTER TABLE {H}( {verb})? {R} ?;", text)
    if one is None:
        rep = v.parts[0] if len(v.parts) == 1 else None
        inner = clauses(rep.elem) if isinstance(rep, Rep) else ""
        k = re.fullmatch(rf"ALTER TABLE {H} {verb} CONSTRAINT {H};", inner)
        if k is None:
            return f"not a statement about constraints: {(inner or text)[:120]}"
        who = rep.elem[int(k.group(1))]
    else:
        who = v.parts[int(one.group(1))]
        rep = v.parts[int(one.group(3))]
        if norm(rep.sep) != ", ":
            return "constraints are not separated"
        inner = clauses(rep.elem)
        k = re.fullmatch(rf"({verb} )?CONSTRAINT {H}", inner)
        if k is None and attr == "spec" and one.group(2) and re.fullmatch(H, inner) and strip(rep.elem[0].term) == rep.loops[0][1]:
            # the text of a constraint is its specification
            return all_constraints(rep, T("attr", (rep.loops[0][1], attr)), attr)
        if k is None or bool(k.group(1)) == bool(one.group(2)):
            return f"not a constraint: {inner[:80]}"
    if strip(who.term) != me("name"):
        return "constraints of another table"
    return all_constraints(rep, strip(rep.elem[int(k.group(2))].term), attr)


def all_constraints(rep: Rep, t: T, attr: str) -> Optional[str]:
    if len(rep.loops) != 1:
        return "not the constraints of the table"
    src, bv = rep.loops[0]
    src2, sub, conds = source(src, bv)
    conds = conds | canon_conds(rep.conds, sub)
    u = subst(t, sub)
    if u != T("attr", (BV, attr)) and not (u.op == "call" and method_name(u) == attr and u.args[1] == BV):
        return f"not the {attr} of the constraint: {show(t)[:80]}"
    s = values_of(src2)
    if s == me("table_constraints"):
        return None if not conds else f"constraints are left out: {[show(c[0])[:60] for c in conds]}"
    if s != me("constraints"):
        return f"not the constraints of the table: {show(s)[:80]}"
    for c, positive in conds:
        if not (positive and c.op == "call" and method_name(c) == "is_alter_table" and c.args[1] == BV):
            return f"constraints are left out: {show(c)[:80]}"
    return None


# -- statements that drop and rename

KEYWORDS = {"Column": "COLUMN", "Table": "TABLE", "StructType": "TYPE", "EnumType": "TYPE", "Namespace": "SCHEMA"}


def address(o: Object, kind: str) -> None:
    word = KEYWORDS[kind]
    for name in ("drop_stmt" if kind != "Namespace" else "drop_schema_stmt", "drop_if_exists_stmt"):
        if o.cls.find_method(name) is None:
            continue
        f = o.method(name)
        problem: Optional[str] = None
        found = 0
        for v in o.text(name):
            text = clauses(v.parts)
            if not text and kind == "Namespace":
                continue
            found += 1
            texts = [(text, v.parts)] + [(clauses(w.parts), w.parts) for p in v.parts if isinstance(p, Hole) and p.term.op == "call" for a in walk(p.term) if a.op == "tmpl" for w in variants(a)]
            hits = [(t, ps, m) for t, ps in texts for m in [re.search(rf"(?:^|, |DROP ){word} (?:IF EXISTS )?{H}", t)] if m]
            if len(hits) != 1 or "DROP" not in hits[0][0]:
                problem = f"not a statement that drops the object: {text[:100]}"
                continue
            t, ps, m = hits[0]
            if strip(ps[int(m.group(1))].term) != me("name"):
                problem = f"another object is dropped: {show(ps[int(m.group(1))].term)[:80]}"
        o.verdict(problem is None and found > 0, "address", name, f, problem or "the object is dropped")
    if kind in ("Column", "EnumType"):
        renamed(o, kind)


def renamed(o: Object, kind: str) -> None:
    f = o.method("rename_stmt")
    names = [a.arg for a in f.args.posonlyargs + f.args.args]
    given = T("param", (names[1],))
    problem: Optional[str] = None
    pattern = rf"ALTER TYPE {H} RENAME TO {H};" if kind == "EnumType" else rf"(?:RENAME COLUMN {H} TO {H}|CHANGE {H} {H} (?P<spec>.*))"
    for v in o.text("rename_stmt"):
        m = re.fullmatch(pattern, clauses(v.parts))
        if m is None:
            problem = f"not a statement that renames: {clauses(v.parts)[:100]}"
            continue
        if "CHANGE" in m.group(0):
            why = column_spec(o.dialect, v)
            problem = problem or why
        a, b = [v.parts[int(g)] for g in m.groups()[:4] if g is not None and g.isdigit()][:2]
        if strip(a.term) != me("name") or not local(strip(b.term), given):
            problem = f"renames {show(a.term)[:40]} to {show(b.term)[:60]}"
    o.verdict(problem is None, "address", "rename_stmt", f, problem or "the object is given the new name")
    # the name of the object that is dropped is the name that it was given
    soft, hard = o.method("soft_drop_stmt"), o.method("hard_drop_stmt")
    word = KEYWORDS[kind]
    new = [v.parts[int(re.findall(H, clauses(v.parts))[1])].term for v in o.text("soft_drop_stmt") if len(re.findall(H, clauses(v.parts))) > 1]
    old = [v.parts[int(m.group(1))].term for v in o.text("hard_drop_stmt") for m in [re.fullmatch(rf"DROP {word} {H};?", clauses(v.parts))] if m]
    new_names, old_names = {deleted_name(strip(x)) for x in new}, {deleted_name(strip(x)) for x in old}
    # a type is renamed within its schema
    qualified = kind != "EnumType" or all(strip(x).op == "call" for x in old)
    good = len(new_names) == 1 and None not in new_names and new_names == old_names and qualified
    o.verdict(good, "address", "hard_drop_stmt", hard, "what is dropped is what was renamed" if good else f"what is dropped is not what was renamed: {[show(x)[:60] for x in new]} {[show(x)[:60] for x in old]}")


def local(t: T, name: T) -> bool:
    return t.op == "new" and t.args[0].name == "LocalId" and dict(t.args[1]).get("id") == name


def deleted_name(t: T) -> Optional[T]:
    "The (text) name of an object that is marked as deleted."
    if t.op == "new" and t.args[0].name == "LocalId":
        t = dict(t.args[1])["id"]
    elif t.op == "call" and method_name(t) == "rename" and t.args[1] == me("name"):
        t = t.args[2][0][1]
    else:
        return None
    return strip(t)


# -- enumerations, composite types

def enum(o: Object) -> None:
    f = o.method("create_stmt")
    problem: Optional[str] = None
    vs = o.text("create_stmt")
    for v in vs:
        text = clauses(v.parts)
        m = re.fullmatch(rf"CREATE TYPE {H} AS ENUM ?\( ?{R} ?\);", text)
        if m is None:
            problem = f"not an enumeration: {text[:120]}"
        elif strip(v.parts[int(m.group(1))].term) != me("name"):
            problem = "another type is created"
        else:
            why = is_all(v.parts[int(m.group(2))], ", ", me("values"), lambda e: len(e) == 1 and isinstance(e[0], Hole) and e[0].term.op == "call" and re.search(r"(constant|quote)$", e[0].term.args[0]) is not None and e[0].term.args[2][0][1] == BV)
            problem = problem or (why and f"the list of values {why}")
    o.verdict(problem is None and bool(vs), "enum", "create_stmt", f, problem or "all values are stated in order")


def struct(o: Object) -> None:
    f = o.method("create_stmt")
    problem: Optional[str] = None
    n = 0
    for has, v in comment_cases(o.text("create_stmt"), me("description")):
        n += 1
        text = clauses(v.parts)
        m = re.match(rf"CREATE TYPE {H} AS ?\( ?{R} ?\);", text)
        if m is None:
            problem = problem or f"not a composite type: {text[:120]}"
            continue
        if strip(v.parts[int(m.group(1))].term) != me("name"):
            problem = problem or "another type is created"
        why = is_all(v.parts[int(m.group(2))], ", ", me("members"), name_elem)
        if why:
            problem = problem or f"the list of members {why}"
        rest = text[m.end():].strip()
        if o.dialect in SEPARATE_COMMENT:
            c = re.match(rf"COMMENT ON TYPE {H} IS {H};", rest)
            if (c is not None) != has:
                problem = problem or ("the description of the type is not stated" if has else "a comment without a description")
            if c is not None:
                if strip(v.parts[int(c.group(1))].term) != me("name"):
                    problem = problem or "the comment is on another type"
                problem = problem or described(o.dialect, v.parts[int(c.group(2))].term, ME, v.pc)
                rest = rest[c.end():].strip()
            c = re.match(R, rest)
            why = "descriptions of members are not stated" if c is None else member_comments(o.dialect, v.parts[int(c.group(1))], me("members"))
            problem = problem or why
            rest = rest[c.end():].strip() if c is not None else rest
        if rest:
            problem = problem or f"unexpected text after the type: {rest[:80]}"
    o.verdict(problem is None and n > 0, "struct", "create_stmt", f, problem or "all members are stated in order")


def member(o: Object) -> None:
    f = o.method("__str__")
    problem: Optional[str] = None
    for v in o.text("__str__"):
        m = re.fullmatch(rf"{H} {H}", clauses(v.parts))
        if m is None or strip(v.parts[int(m.group(1))].term) != me("name") or strip(v.parts[int(m.group(2))].term) != me("data_type"):
            problem = f"not name and type: {clauses(v.parts)}"
    o.verdict(problem is None, "struct", "__str__", f, problem or "name and type are stated")


# -- namespaces and catalogs

CONTRACT = frozenset("create_schema_stmt create_objects_stmt create_stmt add_constraints_stmt __str__ values keys items get sort local_id".split())


def opaque(g: FuncInfo, recv) -> bool:
    return g.name not in CONTRACT and (g.cls is not None or g.name in ("join", "join_or_none"))


def parts_of(o: Object, name: str) -> list[Variant]:
    f = o.method(name)
    o.ctx.analysed(f)
    r = o.ctx.run(f, o.cls, inline=opaque)
    out: list[Variant] = []
    for v, pc in r.returns:
        out += variants(v, tuple(pc))
    return out


def whole(o: Object, name: str, order: list[tuple[str, tuple]]) -> None:
    "A statement that is made of the statements of all objects, kind by kind."
    f = o.method(name)
    problem: Optional[str] = None
    found = 0
    for v in parts_of(o, name):
        parts = [p for p in v.parts if not isinstance(p, str) or p.strip()]
        if not parts:
            continue
        found += 1
        absent = {c.args[0] for c in v.pc if c.op == "isnone"}
        problem = problem or composition(parts, [(k, ms) for k, ms in order if k or not any(call_of(t, ME, ms) for t in absent)])
    o.ctx.count("composite statements")
    o.verdict(problem is None and found > 0, "whole", name, f, problem or ("every object is created, in order" if found else "nothing is created"))


def composition(parts: list, order: list[tuple[str, tuple]]) -> Optional[str]:
    if len(parts) != len(order):
        return f"{len(parts)} kinds of statements instead of {len(order)}"
    for p, (collection, methods) in zip(parts, order):
        if collection == "":
            t = p.term if isinstance(p, Hole) else None
            if t is None or not call_of(t, ME, methods):
                return f"not the statement {methods[0]}: {p}"
            continue
        if not isinstance(p, Rep) or len(p.loops) != 1 or norm(p.sep) != " ":
            return f"not the statements of all {collection}: {p}"
        src, bv = p.loops[0]
        elem = [x for x in p.elem if not isinstance(x, str) or x.strip()]
        if len(elem) != 1 or not isinstance(elem[0], Hole):
            return f"not one statement of each of {collection}: {elem}"
        t = strip(elem[0].term)
        while t.op == "ornone":
            t = strip(t.args[0])
        if not (values_of(src) == me(collection) and call_of(t, bv, methods) or by_key(src, bv, collection) and t.op in ("call", "sub") and any(call_of(t, x, methods) and x.op == "sub" and x.args[1] in (bv, T("attr", (bv, "local_id"))) for x in walk(t))):
            return f"not the statements of each of {collection}: {show(t)[:60]} for {show(src)[:60]}"
        for c in p.conds:
            if not nothing(c, t):
                return f"{collection} are left out: {show(c)[:80]}"
    return None


def by_key(src: T, bv: T, collection: str) -> bool:
    "The keys of the collection, possibly reordered."
    if src == me(collection) or src.op == "call" and method_name(src) == "keys" and src.args[1] == me(collection):
        return True
    return src.op == "call" and "topological_sort" in src.args[0] and any(x == me(collection) for x in walk(src))


def call_of(t: T, owner: T, methods: tuple) -> bool:
    return t == owner and "__str__" in methods or t.op == "call" and method_name(t) in methods and t.args[1] == owner and not t.args[2]


def nothing(c: T, t: T) -> bool:
    "A condition that leaves out only statements that do not exist (not text)."
    if c == t:
        return True
    return c.op == "not" and c.args[0] == T("isnone", (t,))


def namespace(o: Object) -> None:
    f = o.method("create_schema_stmt")
    problem: Optional[str] = None
    named = 0
    for v in o.text("create_schema_stmt"):
        text = clauses(v.parts)
        if not text:
            if not any(c.op == "not" and any(x == me("name") for x in walk(c)) or c.op == "cmp" for c in v.pc):
                problem = problem or "no statement for a named schema"
            continue
        named += 1
        m = re.fullmatch(rf"CREATE SCHEMA (?:IF NOT EXISTS )?{H};", text)
        k = re.search(rf"EXEC ?\(? ?{H} ?\)?;$", text)
        if m is not None:
            if strip(v.parts[int(m.group(1))].term) != me("name"):
                problem = "another schema is created"
        elif k is not None and o.dialect == "mssql":
            t = v.parts[int(k.group(1))].term
            inner = [clauses(w.parts) + "|" + show(strip(w.parts[-1].term)) for a in walk(t) if a.op == "tmpl" for w in variants(a) if isinstance(w.parts[-1], Hole)]
            if inner != [f"CREATE SCHEMA ⟨1⟩|{show(me('name'))}"]:
                problem = f"not the creation of the schema: {inner}"
        else:
            problem = f"not the creation of the schema: {text}"
    o.verdict(problem is None and named > 0, "whole", "create_schema_stmt", f, problem or "the schema is created")
    whole(o, "create_objects_stmt", [("enums", ("create_stmt", "__str__")), ("structs", ("create_stmt", "__str__")), ("tables", ("create_stmt",))])
    whole(o, "create_stmt", [("", ("create_schema_stmt",)), ("", ("create_objects_stmt",))])
    whole(o, "add_constraints_stmt", [("tables", ("add_constraints_stmt",))])
    for name in ("EnumType", "StructType"):
        for c in hierarchy(o.ctx.prog, name):
            g = c.find_method("__str__")
            if g is None:
                raise AnalysisError(f"{c.name}.__str__ is missing")
            r = o.ctx.run(g, c, inline=lambda g, recv: False)
            good = all(v.op == "call" and method_name(v) == "create_stmt" and v.args[1] == ME for v, _ in r.returns)
            o.ctx.check(good, "whole", f"{c.name}.__str__", g.loc(), "the text of a type is the statement that creates it" if good else "the text of a type is not the statement that creates it")


def catalog(o: Object) -> None:
    whole(o, "create_stmt", [("namespaces", ("create_schema_stmt",)), ("namespaces", ("create_objects_stmt",))])
    whole(o, "add_constraints_stmt", [("namespaces", ("add_constraints_stmt",))])


def check(ctx: Ctx) -> None:
    for d, g, init in c05.generators(ctx):
        factory = factory_of(ctx, g, init)
        for kind in KINDS:
            p = factory.find_method(kind)
            if p is None:
                raise AnalysisError(f"{factory.name}.{kind} is missing")
            ctx.analysed(p)
            r = ctx.run(p, factory)
            for v, _ in r.returns:
                if v.op != "class":
                    raise AnalysisError(f"{factory.name}.{kind}: {show(v)[:80]}")
                o = Object(ctx, d, v.args[0])
                address(o, {"column_class": "Column", "struct_class": "StructType", "namespace_class": "Namespace"}.get(kind, "Table"))
                if kind == "column_class":
                    column(o)
                elif kind == "table_class":
                    table(o, False)
                    add_constraints(o)
                    alter(o)
                elif kind == "enum_table_class":
                    # lookup tables are made only in dialects that accept this mode
                    if "RELATION" in c05.ACCEPT[d]["enum_mode"]:
                        table(o, True)
                        add_constraints(o)
                elif kind == "struct_class":
                    struct(o)
                else:
                    namespace(o)
    constraint_specs(ctx)
    for c in hierarchy(ctx.prog, "EnumType"):
        enum(Object(ctx, "all", c))
        address(Object(ctx, "all", c), "EnumType")
    for c in hierarchy(ctx.prog, "StructMember"):
        member(Object(ctx, "all", c))
    for c in hierarchy(ctx.prog, "Catalog"):
        catalog(Object(ctx, "all", c))
    ctx.minimum("column variants", 200)
    ctx.minimum("table variants", 20)


def factory_of(ctx: Ctx, g: ClassInfo, init: FuncInfo) -> ClassInfo:
    "The factory that a generator is constructed with."
    r = ctx.run(init, g, inline=c05.inline_ctor)
    found = set()
    for o, pc in c05.converter_options(r):
        t = o.get("factory")
        for x in ([] if t is None else walk(t)):
            if x.op == "new" and x.args[0].is_subclass_of("ObjectFactory"):
                found.add(x.args[0])
    if len(found) > 1:
        raise AnalysisError(f"{g.short}: {len(found)} factories")
    return found.pop() if found else ctx.prog.find_class("ObjectFactory")
