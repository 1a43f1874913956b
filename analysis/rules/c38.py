"""
Decides that values survive a change of the representation of an enumeration.

The operations of the mutators are evaluated to terms, and the terms on representatives of all combinations of what they depend on:
which enumeration types go, which tables come, which permission is set; for each column, whether its values have to be translated.

* `type`: an enumeration type that makes way for a table of the same name is renamed before the table is created, its values are put in
  the table once that (with its constraints) exists, and it is the renamed type that is dropped; no other type is renamed
* `column`: a column whose values are translated is renamed, the column of the target is created, the values are translated, and the
  renamed column is dropped, in this order, each exactly once; no other column is renamed, and none is dropped but those that go
* `translated`: an enumeration or text that becomes an integer is translated wherever the dialect has a translation; a type that stays
  is not. Where the dialect has no translation, the operation ends in an error.
* `text`: the translation stores, for each row, the key of the value of the renamed column in the table that the new column refers to;
  all values that rows may have are in this table before (unless they were put there when it was created)
* `name`: what is renamed is found under the new name by the translation and by the statement that drops it
* `reference`: the table looked up is that of the foreign key whose only column is the column translated
"""

from __future__ import annotations

import itertools
import re
from typing import Optional

from ..common import hierarchy
from ..finite import Cls, Ext, Finite, Obj, Raised, Undecided
from ..framework import Ctx
from ..program import AnalysisError, ClassInfo, FuncInfo
from ..terms import T
from . import c05, c06
from .c07 import Dialect

ASSUMPTIONS = [
    "a lookup table has the columns `id` and `value` (see C25)",
    "statements of a script are executed in their order (see C06)",
    "the values of an enumeration type that a table of the same name replaces are put in the table when that is created",
]
STATEMENTS = {"create_stmt", "drop_stmt", "soft_drop_stmt", "hard_drop_stmt", "alter_table_stmt", "add_constraints_stmt", "drop_constraints_stmt"}
OPERATIONS = {"migrate_enum_stmt", "migrate_column_stmt", "mutate_enum_stmt", "mutate_struct_stmt", "mutate_table_stmt", "mutate_column_stmt", "mutate_namespace_stmt", "is_column_migrated", "check_identity"}
# the kinds of types whose values a dialect stores for an enumeration
SOURCES = {"SqlUserDefinedType", "SqlEnumType", "SqlVariableCharacterType"}


def inline(g: FuncInfo, recv) -> bool:
    if g.name in OPERATIONS:
        return False
    return c06.own(g, recv)


class Model:
    "Collections of named objects; statements stand for themselves."

    def __init__(self, mutator: ClassInfo, tokens: bool) -> None:
        self.mutator, self.tokens = mutator, tokens

    def __call__(self, fin: Finite, t: T, env: dict) -> object:
        a = t.args
        if t.op == "reversed":
            return list(fin.value(a[0], env))[::-1]  # type: ignore
        if t.op in ("ornone",):
            return fin.value(a[0], env) or None
        if t.op == "proj":
            v = fin.value(a[0], env)
            if isinstance(v, (tuple, list)):
                return v[a[1]]
        if t.op == "sorted" and not a[1]:
            return fin.value(a[0], env)
        if t.op == "loopout" and len(a) in (5, 6):
            src, bv, carried, init, body = a[:5]
            v = fin.value(init, env)
            for x in fin.value(src, env):  # type: ignore
                e = {**env, bv: x, carried: v}
                v = fin.value(body, e)
                if len(a) == 6 and fin.truth(a[5], e):
                    break
            return v
        if t.op == "found" and len(a) == 4:
            src, bv, cond, val = a
            for x in fin.value(src, env):  # type: ignore
                if fin.truth(cond, {**env, bv: x}):
                    return fin.value(val, {**env, bv: x})
            raise Raised("nothing found")
        if t.op == "for" and len(a) == 4:
            raise Undecided("break")
        if t.op == "cmp" and a[0] in ("==", "!="):
            x, y = fin.value(a[1], env), fin.value(a[2], env)
            if isinstance(x, (dict, Obj)) and isinstance(y, type(x)) and (isinstance(x, dict) or x.cls.name in ("LocalId", "QualifiedId")):
                return (x == y) == (a[0] == "==")
        if t.op != "call":
            return NotImplemented
        name, recv, args = str(a[0]), a[1], a[2]
        short = name.rsplit(".", 1)[-1]
        if recv is None:
            if short in ("sql_quoted_string", "quote", "constant") and args:
                return "'" + str(fin.value(args[0][1], env)).replace("'", "''") + "'"
            if short == "cast" and len(args) == 2:
                return fin.value(args[1][1], env)
            if short == "next" and args:
                xs = list(fin.value(args[0][1], env))  # type: ignore
                if xs or len(args) > 1:
                    return xs[0] if xs else fin.value(args[1][1], env)
                raise Raised("StopIteration")
            return NotImplemented
        r = fin.value(recv, env) if name != "()" else None
        if isinstance(r, dict):
            vs = [fin.value(v, env) for _, v in args]
            if short in ("values", "keys", "items"):
                return list(getattr(r, short)())
            if short == "difference":
                return [v for k, v in r.items() if k not in vs[0]]  # type: ignore
            if short == "intersection":
                return [(v, vs[0][k]) for k, v in r.items() if k in vs[0]]  # type: ignore
        if isinstance(r, Obj) and self.tokens and short in STATEMENTS:
            vs = [fin.value(v, env) for _, v in args]
            kind = next((c.name for c in r.cls.project_mro() if c.name in ("EnumType", "Table", "Column", "StructType")), r.cls.name)
            label = f"{short} {kind} {ident(r)}"
            if short == "alter_table_stmt":
                return f"{label} [" + " | ".join(map(str, vs[0])) + "]"  # type: ignore
            return label
        if isinstance(r, Ext) and r.kind == "self" and isinstance(t.meta, FuncInfo):
            e = {k: fin.value(v, env) for k, v in args}
            f = t.meta if name.startswith("super:") else self.mutator.find_method(t.meta.name) or t.meta
            if not name.startswith("super:") and self.tokens and f.name in ("migrate_enum_stmt", "migrate_column_stmt", "mutate_column_stmt", "mutate_enum_stmt", "mutate_struct_stmt", "mutate_table_stmt"):
                vs = list(e.values())
                if f.name.startswith("mutate_"):
                    return f"{f.name} {ident(vs[-1])}"
                return f"{f.name} {' '.join(map(ident, vs))}"
            if f.name == "check_identity":
                return None
            # arguments are passed by the names of the operation called
            names = [x.arg for x in f.args.posonlyargs + f.args.args]
            if set(e) <= set(names):
                bound = e
            else:
                bound = dict(zip(names[1:], e.values()))
            return fin.call(f, self.mutator, {names[0]: r, **bound})
        return NotImplemented


def ident(o: object) -> str:
    if isinstance(o, Obj):
        tag = dict(o.attrs).get("tag")
        n = o.get("name")
        d = dict(n.attrs) if isinstance(n, Obj) else {}
        return f"{tag or ''}{d.get('id') or d.get('_id') or d.get('local_id') or n}"
    raise Undecided(f"name of {o!r}")


class World:
    def __init__(self, ctx: Ctx, d: Dialect) -> None:
        self.ctx, self.d, prog = ctx, d, ctx.prog
        self.fin = Finite(ctx, inline=inline, model=Model(d.mutator, True))
        self.plain = Finite(ctx, inline=lambda g, recv: inline(g, recv), model=Model(d.mutator, False))
        self.local = prog.find_class("LocalId")
        self.qualified = prog.find_class("QualifiedId")

    def obj(self, cls: ClassInfo, **attrs: object) -> Obj:
        return Obj(cls, tuple(sorted(attrs.items())))

    def lid(self, s: str) -> Obj:
        return self.fin.construct(self.local, [("0", s)])

    def qid(self, s: str) -> Obj:
        return self.fin.construct(self.qualified, [("0", "ns"), ("1", s)])

    def enum(self, s: str) -> Obj:
        return self.obj(self.d.classes["enums"], name=self.qid(s), values=(f"{s}1", f"{s}'2"))

    def column(self, s: str, ty: object, tag: str = "") -> Obj:
        return self.obj(self.d.classes["columns"], name=self.lid(s), data_type=ty, nullable=False, default=None, identity=False, description=None, tag=tag)

    def table(self, s: str, columns: dict, constraints: Optional[dict] = None, tag: str = "") -> Obj:
        return self.obj(self.d.classes["tables"], name=self.qid(s), columns=columns, constraints=constraints or {}, primary_key=(), description=None, tag=tag)

    def namespace(self, enums: dict, tables: dict) -> Obj:
        return self.obj(self.d.classes["namespaces"], name=self.lid("ns"), enums=enums, structs={}, tables=tables)

    def me(self, **options: object) -> Ext:
        base = {"allow_drop_enum": True, "allow_drop_struct": True, "allow_drop_table": True, "allow_drop_namespace": True, **options}
        return Ext("self", (("options", Ext("options", tuple(base.items()))),))

    def type(self, name: str, **attrs: object) -> Obj:
        c = self.ctx.prog.find_class(name)
        if attrs:
            return self.obj(c, **attrs)
        return self.fin.construct(c, [])


def pairs(f: FuncInfo, cls: ClassInfo) -> list[str]:
    return [x.arg for x in f.args.posonlyargs + f.args.args]


# -- enumeration types


def check_types(ctx: Ctx, w: World) -> None:
    f = w.d.mutator.find_method("mutate_namespace_stmt")
    if f is None:
        raise AnalysisError("no mutate_namespace_stmt")
    where = f"{w.d.mutator.name}.mutate_namespace_stmt"
    names = pairs(f, w.d.mutator)
    gone = [c for k in range(4) for c in itertools.permutations("ABC", k)]
    come = [c for k in range(4) for c in itertools.permutations("ABX", k)]
    wrong: dict[str, str] = {}
    for drop in (True, False):
        for g in gone:
            for t in come:
                src = w.namespace({e: w.enum(e) for e in g + ("K",)}, {"T": w.table("T", {}), "U": w.table("U", {})})
                tgt = w.namespace({"K": w.enum("K")}, {**{x: w.table(x, {}) for x in t}, "T": w.table("T", {})})
                try:
                    v = w.fin.call(f, w.d.mutator, {names[0]: w.me(allow_drop_enum=drop), names[1]: src, names[2]: tgt})
                except Raised:
                    wrong.setdefault("error", f"types {g} replaced by tables {t}")
                    continue
                ctx.count("namespaces")
                lines = str(v).split("\n") if v else []
                # what is added in front or behind may be anything
                at = {x: [i for i, y in enumerate(lines) if y == x] for x in set(lines)}

                def one(x: str) -> Optional[int]:
                    return at[x][0] if len(at.get(x, [])) == 1 else None

                case = f"types that go: {', '.join(g) or 'none'}; tables that come: {', '.join(t) or 'none'}; types may be dropped: {drop}"
                for e in g:
                    soft, hard, plain = f"soft_drop_stmt EnumType {e}", f"hard_drop_stmt EnumType {e}", f"drop_stmt EnumType {e}"
                    move, make, keys = f"migrate_enum_stmt {e} {e}", f"create_stmt Table {e}", f"add_constraints_stmt Table {e}"
                    if e in t:
                        a, b, c, k = one(soft), one(make), one(move), one(keys)
                        if a is None:
                            wrong.setdefault("a type replaced by a table is not renamed exactly once", case)
                        elif b is None or a > b:
                            wrong.setdefault("a type is renamed after the table of its name is created", case)
                        if c is None:
                            wrong.setdefault("the values of a type are not put in the table that replaces it exactly once", case)
                        elif b is None or c < b or k is not None and c < k:
                            wrong.setdefault("values are put in a table before it exists with its constraints", case)
                        if plain in at:
                            wrong.setdefault("the name of the table is dropped as a type", case)
                        if len(at.get(hard, [])) != (1 if drop else 0):
                            wrong.setdefault("the renamed type is not dropped exactly if types may be dropped", case)
                        elif drop and c is not None and at[hard][0] < c:
                            wrong.setdefault("the type is dropped before its values are put in the table", case)
                    else:
                        if soft in at or hard in at or any(x.startswith(f"migrate_enum_stmt {e} ") for x in at):
                            wrong.setdefault("a type that no table replaces is renamed or its values are moved", case)
                        if len(at.get(plain, [])) != (1 if drop else 0):
                            wrong.setdefault("a type that goes is not dropped exactly if types may be dropped", case)
                for x in at:
                    if x.startswith(("soft_drop_stmt", "hard_drop_stmt", "migrate_enum_stmt")) and x.split()[-1] not in g:
                        wrong.setdefault("a type that stays is renamed, moved or dropped", case)
                    if x.startswith("migrate_enum_stmt") and x.split()[1] != x.split()[2]:
                        wrong.setdefault("values of a type are put in another table", case)
    for k, case in wrong.items():
        ctx.bad("type", f"{where}: {k}", f.loc(), f"{k} ({case})")
    if not wrong:
        ctx.ok("type", where, f.loc())


# -- columns


def check_columns(ctx: Ctx, w: World, moved: tuple[Obj, Obj]) -> None:
    f = w.d.mutator.find_method("mutate_table_stmt")
    if f is None:
        raise AnalysisError("no mutate_table_stmt")
    where = f"{w.d.mutator.name}.mutate_table_stmt"
    names = pairs(f, w.d.mutator)
    same = w.type("SqlDateType") if ctx.prog.find_class("SqlDateType") else moved[1]
    wrong: dict[str, str] = {}
    for k in range(1, 4):
        for kinds in itertools.product(("moved", "same", "gone", "new"), repeat=k):
            src: dict[str, Obj] = {}
            tgt: dict[str, Obj] = {}
            for i, kind in enumerate(kinds):
                n = "abc"[i]
                if kind != "new":
                    src[n] = w.column(n, moved[0] if kind == "moved" else same, "s.")
                if kind != "gone":
                    tgt[n] = w.column(n, moved[1] if kind == "moved" else same, "t.")
            case = f"columns: {', '.join(kinds)}"
            try:
                v = w.fin.call(f, w.d.mutator, {names[0]: w.me(), names[1]: w.table("T", src, tag="s."), names[2]: w.table("T", tgt, tag="t.")})
            except Raised:
                if "moved" not in kinds:
                    wrong.setdefault("an error is raised although nothing has to be translated", case)
                continue
            ctx.count("tables")
            text = str(v) if v else ""
            # the statements in their order, those of a table flattened
            flat = [y for x in text.split("\n") for y in ([*re.sub(r"^alter_table_stmt Table \S+ \[|\]$", "", x).split(" | ")] if x.startswith("alter_table_stmt") else [x])]
            at = {x: [i for i, y in enumerate(flat) if y == x] for x in set(flat)}
            for i, kind in enumerate(kinds):
                n = "abc"[i]
                soft, hard, drop = f"soft_drop_stmt Column s.{n}", f"hard_drop_stmt Column s.{n}", f"drop_stmt Column s.{n}"
                make, move = f"create_stmt Column t.{n}", f"migrate_column_stmt s.T s.{n} t.T t.{n}"
                if kind == "moved":
                    order = [at.get(x, []) for x in (soft, make, move, hard)]
                    what = ("renamed", "created as in the target", "translated", "dropped under its new name")
                    for x, said in zip(order, what):
                        if len(x) != 1:
                            wrong.setdefault(f"a column whose values are translated is not {said} exactly once", case)
                    firsts = [x[0] for x in order if len(x) == 1]
                    if firsts != sorted(firsts):
                        wrong.setdefault("a column is not renamed, created, translated and dropped in this order", case)
                    if drop in at or f"drop_stmt Column t.{n}" in at:
                        wrong.setdefault("the new column is dropped", case)
                else:
                    for x in at:
                        if x.startswith(("soft_drop_stmt", "hard_drop_stmt", "migrate_column_stmt")) and re.search(rf"\.{n}\b", x):
                            wrong.setdefault("a column that is not translated is renamed, translated or dropped", case)
                    if kind == "same" and (drop in at or f"drop_stmt Column t.{n}" in at):
                        wrong.setdefault("a column that stays is dropped", case)
    for k2, case in wrong.items():
        ctx.bad("column", f"{where}: {k2}", f.loc(), f"{k2} ({case})")
    if not wrong:
        ctx.ok("column", where, f.loc())


# -- the translation

TOKEN = re.compile(r"\"(?:[^\"]|\"\")*\"|'(?:[^']|'')*'|\w+|::|[^\s\w]")


def tokens(text: str) -> list[list[str]]:
    out: list[list[str]] = [[]]
    for t in TOKEN.findall(text):
        if t == ";":
            out.append([])
        else:
            out[-1].append(t if t[0] in "\"'" else t.upper())
    return [s for s in out if s]


class Text:
    "A statement, read from left to right."

    def __init__(self, ts: list[str]) -> None:
        self.ts, self.i = ts, 0

    def peek(self, *words: str) -> bool:
        return self.ts[self.i:self.i + len(words)] == list(words)

    def skip(self, *words: str) -> bool:
        if self.peek(*words):
            self.i += len(words)
            return True
        return False

    def name(self) -> str:
        "An identifier with its qualifiers."
        parts = [self.ts[self.i]] if self.i < len(self.ts) else [""]
        self.i += 1
        while self.peek("."):
            parts.append(self.ts[self.i + 1] if self.i + 1 < len(self.ts) else "")
            self.i += 2
        # a cast
        while self.skip("::"):
            self.i += 1
        return ".".join(parts)

    def aliased(self) -> tuple[str, str]:
        n = self.name()
        self.skip("AS")
        if self.i < len(self.ts) and re.fullmatch(r"\w+|\".*\"", self.ts[self.i]) and self.ts[self.i] not in ("SET", "JOIN", "INNER", "FROM", "WHERE", "ON"):
            return n, self.name()
        return n, n

    @property
    def end(self) -> bool:
        return self.i >= len(self.ts)


def read_update(ts: list[str]) -> Optional[tuple[str, str, str, str, str]]:
    "Table, column set, table looked up, column compared, column taken: of an update that looks up a key."
    p = Text(ts)
    if not p.skip("UPDATE"):
        return None
    table, alias = p.aliased()
    ref = other = ""
    sets: Optional[tuple[str, str]] = None
    where: Optional[tuple[str, str]] = None
    while not p.end:
        if p.skip("INNER") or p.skip("AS"):
            continue
        if p.skip("JOIN") or p.skip("FROM"):
            if ref:
                return None
            ref, other = p.aliased()
        elif p.skip("SET") and sets is None:
            a = p.name()
            if not p.skip("="):
                return None
            sets = a, p.name()
        elif (p.skip("WHERE") or p.skip("ON")) and where is None:
            a = p.name()
            if not p.skip("="):
                return None
            where = a, p.name()
        else:
            return None
    if sets is None or where is None or not ref:
        return None
    x, y = where if where[0].startswith(alias + ".") else (where[1], where[0])
    if not x.startswith(alias + ".") or y != f'{other}."value"':
        return None
    target = sets[0][len(alias) + 1:] if sets[0].startswith(alias + ".") else sets[0]
    if not sets[1].startswith(other + "."):
        return None
    return table, target, ref, x[len(alias) + 1:], sets[1][len(other) + 1:]


def read_insert(ts: list[str]) -> Optional[tuple[str, Optional[list[str]], str, str, bool]]:
    "Table, values or column and table they are taken from, and whether null is left out."
    p = Text(ts)
    if not p.skip("INSERT"):
        return None
    p.skip("IGNORE")
    if not p.skip("INTO"):
        return None
    ref = p.name()
    if not p.skip("(", '"value"', ")"):
        return None
    if p.skip("VALUES"):
        values = []
        while p.skip("("):
            values.append(p.name())
            if not p.skip(")"):
                return None
            p.skip(",")
        return ref, values, "", "", True
    if p.skip("SELECT"):
        p.skip("DISTINCT")
        col = p.name()
        if not p.skip("FROM"):
            return None
        table, alias = p.aliased()
        ok = False
        if p.skip("WHERE"):
            c = p.name()
            ok = c == col and p.skip("IS", "NOT", "NULL")
            if not ok:
                return None
        return ref, None, table, col.rsplit(".", 1)[-1] if "." in col else col, ok
    return None


def representatives(w: World) -> dict[str, Obj]:
    return {
        "SqlUserDefinedType": w.type("SqlUserDefinedType", ref=w.qid("E")),
        "SqlEnumType": w.type("SqlEnumType", values=("x", "y'z")),
        "SqlVariableCharacterType": w.obj(w.ctx.prog.find_class("SqlVariableCharacterType"), limit=None, storage=None, collation=None),
    }


def stored_as(w: World) -> list[str]:
    "The kinds of types that the dialect stores values of enumerations with."
    if w.d.name in ("postgresql", "redshift"):
        return ["SqlUserDefinedType", "SqlVariableCharacterType"]
    if w.d.name == "mysql":
        return ["SqlEnumType", "SqlVariableCharacterType"]
    return ["SqlVariableCharacterType", "SqlEnumType"]


def renamed(ctx: Ctx, w: World, o: Obj, kind: str, soft_rx: str, hard_rx: str) -> str:
    "The name under which something is found once it is renamed."
    cls = o.cls
    soft, hard = cls.find_method("soft_drop_stmt"), cls.find_method("hard_drop_stmt")
    if soft is None or hard is None:
        raise AnalysisError(f"{cls.name} cannot be renamed")
    a = str(w.plain.call(soft, cls, {"self": o}))
    b = str(w.plain.call(hard, cls, {"self": o}))
    old = str(w.plain.text(o.get("name")))
    m, n = re.fullmatch(soft_rx, a.strip()), re.fullmatch(hard_rx, b.strip())
    what = f"{cls.name} ({w.d.name})"
    if not ctx.check(bool(m and n), "name", f"{what}: rename", soft.loc(), f"not a statement that renames, and one that drops: {a!r}, {b!r}"):
        return ""
    last = n["new"]  # type: ignore
    if kind == "type":
        ctx.check(last.rsplit(".", 1)[0] == old.rsplit(".", 1)[0], "name", f"{what}: scope", hard.loc(), f"a type renamed in {old} is dropped as {last}")
        last = last.rsplit(".", 1)[-1]
    was = m["old"] or m["old2"]  # type: ignore
    ctx.check(was == old, "name", f"{what}: renamed", soft.loc(), f"{was} is renamed instead of {old}")
    ctx.check(m["new"] == last and m["new"] != old.rsplit(".", 1)[-1], "name", f"{what}: new name", hard.loc(), f"renamed to {m['new']}, but dropped as {last}")  # type: ignore
    ctx.count("names")
    return m["new"]  # type: ignore


def check_translation(ctx: Ctx, w: World) -> None:
    m = w.d.mutator
    is_moved, move, f_enum = m.find_method("is_column_migrated"), m.find_method("migrate_column_stmt"), m.find_method("migrate_enum_stmt")
    if is_moved is None or move is None or f_enum is None:
        raise AnalysisError(f"{m.name} has no translation")
    ID = r'"(?:[^"]|"")*"'
    col = w.column("c", w.type("SqlDateType"))
    new = renamed(ctx, w, col, "column", rf"(?:RENAME COLUMN (?P<old>{ID}) TO|CHANGE(?: COLUMN)? (?P<old2>{ID})) (?P<new>{ID})(?(old2) .*|)", rf"DROP COLUMN (?P<new>{ID})")
    renamed(ctx, w, w.enum("E"), "type", rf"ALTER TYPE (?P<old>{ID}\.{ID})(?P<old2>) RENAME TO (?P<new>{ID});", rf"DROP TYPE (?P<new>{ID}\.{ID});")
    integer = w.fin.construct(ctx.prog.find_class("SqlIntegerType"), [("width", 4)])
    reps = representatives(w)
    foreign = ctx.prog.find_class("ForeignConstraint")
    target_ref = w.obj(ctx.prog.find_class("ConstraintReference"), table=w.qid("R"), columns=(w.lid("id"),))
    fk = w.obj(foreign, name=w.lid("fk"), foreign_columns=(w.lid("c"),), reference=target_ref)
    me = w.me()
    n_is, n_move = pairs(is_moved, m), pairs(move, m)
    any_moved: Optional[tuple[Obj, Obj]] = None
    for name, rep in reps.items():
        src, tgt = w.column("c", rep), w.column("c", integer)
        v = w.plain.call(is_moved, m, {n_is[0]: me, n_is[1]: src, n_is[2]: tgt})
        where = f"{m.name} ({w.d.name}): {name}"
        source_table, target_table = w.table("S", {"c": src}), w.table("S", {"c": tgt}, {"fk": fk})
        # the text of a table in the target may have another name in no case: the tables have the same name
        try:
            said = w.plain.call(move, m, {n_move[0]: me, n_move[1]: source_table, n_move[2]: src, n_move[3]: target_table, n_move[4]: tgt})
        except Raised:
            said = "error"
        ctx.count("translations")
        if v and any_moved is None:
            any_moved = (rep, integer)
        if said == "error":
            # refused if it is ever needed
            ctx.ok("translated", where, move.loc())
            continue
        if not isinstance(said, str):
            ctx.check(not v, "translated", where, move.loc(), "a column is renamed and dropped, and its values are not translated to the new column")
            continue
        if name in stored_as(w):
            ctx.check(bool(v), "translated", where, is_moved.loc(), f"values of a column of type {name} are not translated when the column becomes a key")
        if not v:
            continue
        statements = tokens(said)
        update = [u for u in map(read_update, statements) if u is not None]
        inserts = [i for i in map(read_insert, statements) if i is not None]
        S, R, C = '"ns"."S"', '"ns"."R"', '"c"'
        if not ctx.check(len(update) == 1 and statements[-1][:1] == ["UPDATE"], "text", f"{where}: lookup", move.loc(), f"the keys of the values are not stored: {said}"):
            continue
        table, target, ref, compared, taken = update[0]
        ctx.check(table == S and target == C, "text", f"{where}: column set", move.loc(), f"sets {target} of {table} instead of {C} of {S}")
        ctx.check(ref == R and taken == '"id"', "text", f"{where}: key", move.loc(), f"takes {taken} of {ref} instead of the key of {R}")
        ctx.check(compared == new, "text", f"{where}: value", move.loc(), f"compares {compared} instead of {new}, which holds the old values")
        if name == "SqlUserDefinedType":
            # the type has the name of the table, whose values are put there on creation
            continue
        good = False
        for i_ref, values, i_table, i_col, not_null in inserts:
            if values is not None:
                good = good or i_ref == R and values == ["'x'", "'y''z'"] and name == "SqlEnumType"
            else:
                good = good or i_ref == R and i_table == S and i_col == new
                ctx.check(not_null, "text", f"{where}: null", move.loc(), "null is put in the lookup table for rows that have no value")
        if name in stored_as(w):
            ctx.check(good, "text", f"{where}: values", move.loc(), "values of existing rows are not put in the lookup table before they are looked up, and are lost")
    # types that stay
    varchar, date = reps["SqlVariableCharacterType"], w.type("SqlDateType")
    for a, b in ((integer, integer), (varchar, varchar), (date, varchar), (varchar, date), (reps["SqlEnumType"], varchar), (date, date)):
        v = w.plain.call(is_moved, m, {n_is[0]: me, n_is[1]: w.column("c", a), n_is[2]: w.column("c", b)})
        ctx.check(not v, "translated", f"{m.name} ({w.d.name}): {a.cls.name} to {b.cls.name}", is_moved.loc(), "a column that is no key is renamed and looked up in another table")
    if any_moved is not None:
        check_columns(ctx, w, any_moved)
    # values of a type
    said = w.plain.call(f_enum, m, dict(zip(pairs(f_enum, m), (me, w.enum("E"), w.table("R", {})))))
    where = f"{m.name} ({w.d.name}).migrate_enum_stmt"
    ins = [i for i in map(read_insert, tokens(str(said)))]
    ctx.check(len(ins) == 1 and ins[0] is not None and ins[0][0] == '"ns"."R"' and ins[0][1] == ["'E1'", "'E''2'"], "text", where, f_enum.loc(), f"not all values of the type are put in the table: {said}")


def check_reference(ctx: Ctx, w: World) -> None:
    "The table that a column refers to."
    c = w.d.classes["tables"]
    f = c.find_method("get_constraint")
    if f is None:
        raise AnalysisError("no get_constraint")
    prog = ctx.prog
    foreign, unique = prog.find_class("ForeignConstraint"), prog.find_class("UniqueConstraint")
    ref = prog.find_class("ConstraintReference")

    def to(n: str) -> Obj:
        return w.obj(ref, table=w.qid(n), columns=(w.lid("id"),))

    kinds = {
        "unique": w.obj(unique, name=w.lid("u"), unique_columns=(w.lid("c"),)),
        "several": w.obj(foreign, name=w.lid("m"), foreign_columns=(w.lid("c"), w.lid("d")), reference=to("M")),
        "other": w.obj(foreign, name=w.lid("o"), foreign_columns=(w.lid("d"),), reference=to("O")),
    }
    right = w.obj(foreign, name=w.lid("r"), foreign_columns=(w.lid("c"),), reference=to("R"))
    names = pairs(f, c)
    where = f"{c.name}.get_constraint ({w.d.name})"
    bad = ""
    for k in range(4):
        for p in itertools.permutations(kinds, k):
            for at in range(k + 2):
                xs = [kinds[x] for x in p]
                if at <= k:
                    xs.insert(at, right)
                t = w.table("S", {}, {str(i): x for i, x in enumerate(xs)})
                try:
                    v = w.plain.call(f, c, {names[0]: t, names[1]: w.lid("c")})
                except Raised:
                    v = None
                ctx.count("references")
                if (v == right.get("reference")) != (at <= k) or at > k and v is not None:
                    bad = bad or f"constraints: {', '.join(p[:at] + ('the right one',) * (at <= k) + p[at:])}"
    ctx.check(not bad, "reference", where, f.loc(), f"a column is looked up in a table that it does not refer to, or in none ({bad})")


def check(ctx: Ctx) -> None:
    seen: set = set()
    for _, gen, _ in c05.generators(ctx):
        d = Dialect(ctx, gen)
        w = World(ctx, d)
        if d.mutator not in seen:
            check_types(ctx, w)
            seen.add(d.mutator)
        check_translation(ctx, w)
        if d.classes["tables"] not in seen:
            check_reference(ctx, w)
            seen.add(d.classes["tables"])
    ctx.minimum("namespaces", 300)
    ctx.minimum("tables", 30)
    ctx.minimum("translations", 12)
