"""
Difference analysis of the mutators.

Every operation that compares a source and a target definition (catalog, namespace, table with its columns, composite type,
enumeration; for the mutator and the object classes of every dialect) is evaluated symbolically. The result is then interpreted in an
abstract domain in which one thing is known about the pair of definitions: they are equal, or they differ in exactly one respect (an
attribute that the dialect writes when it creates the object, or an element that only one of the two has).

* `quiet`: equal definitions yield no statement and no error.
* `acts`: a difference in one respect yields a statement or an error, whatever the remaining (equal) attributes are. The attributes are
  those read by the operations that create the object.
* `joint`: of two attributes that differ together, neither is ignored: the statements are not those of the other difference alone.
* `value`: the statement states the value of the target.
* `raises`: a removed enumeration value or a changed constraint yields an error.
* `pairs`: objects are matched by name: what is only in the one, what is only in the other, and pairs of the same name.
* `equality`: attributes that are written are compared when definitions are tested for equality.
* `direction`: the change script is made from the current state to the desired state.
"""

from __future__ import annotations

import ast
import itertools
import re
from typing import Iterator, Optional

from ..common import hierarchy, is_self_attr, method_name
from ..framework import Ctx, events
from ..program import AnalysisError, ClassInfo, FuncInfo
from ..sqltext import Hole, Rep, variants
from ..terms import NONE_T, T, conj, const, is_const, neg, rewrite, show, subst, walk
from . import c06
from .c05 import dialect_of

ASSUMPTIONS = [
    "text derived from different values of an attribute is different (comments are compared by their first line where only that is stored)",
    "the order of columns, members and enumeration values is not part of a definition; neither are the rows of a lookup table",
    "options permit objects to be dropped",
]
MUTATE = {"mutate_catalog_stmt", "mutate_namespace_stmt", "mutate_table_stmt", "mutate_struct_stmt", "mutate_enum_stmt"}
MIGRATE = {"migrate_enum_stmt", "migrate_column_stmt"}
TEXT = {"create_stmt", "drop_stmt", "soft_drop_stmt", "hard_drop_stmt", "rename_stmt", "alter_table_stmt", "drop_if_exists_stmt", "create_objects_stmt", "create_schema_stmt"}
COLLECTIONS = {"columns", "constraints", "members", "values", "enums", "structs", "tables", "namespaces"}


INNER = {"mutate_struct_stmt": "members", "mutate_table_stmt": "columns"}
LOGICAL = {"isnone", "not", "and", "or", "cmp", "in", "exists"}
PARTIAL = LOGICAL | {"len", "isinstance", "type", "typeof"}


class Dialect:
    def __init__(self, ctx: Ctx, gen: ClassInfo) -> None:
        self.name = dialect_of(gen)
        self.mutator = ctx.prog.find_class("Mutator")
        factory = ctx.prog.find_class("ObjectFactory")
        r = ctx.run(gen.find_method("__init__"), gen, inline=lambda g, recv: False)
        for e in events(r):
            for x in walk(e):
                if x.op in ("new", "class") and isinstance(x.args[0], ClassInfo):
                    c = x.args[0]
                    if x.op == "new" and c.is_subclass_of("Mutator"):
                        self.mutator = c
                    if x.op == "new" and c.is_subclass_of("ObjectFactory"):
                        factory = c
        self.classes: dict[str, ClassInfo] = {"enums": ctx.prog.find_class("EnumType"), "members": ctx.prog.find_class("StructMember")}
        for coll, p in (("columns", "column_class"), ("tables", "table_class"), ("structs", "struct_class"), ("namespaces", "namespace_class")):
            f = factory.find_method(p)
            v = ctx.run(f, factory).value
            if v.op != "class":
                raise AnalysisError(f"{factory.name}.{p} is not a class: {show(v)}")
            self.classes[coll] = v.args[0]


def inline(level: str):
    def policy(g: FuncInfo, recv) -> bool:
        if g.cls is not None and g.cls.is_subclass_of("Mutator"):
            return g.name == level or g.name not in MUTATE | MIGRATE and not g.name.startswith("__")
        return c06.own(g, recv)

    return policy


# -- abstract interpretation


class Case:
    "What is known about a pair of definitions."

    def __init__(self, d: Dialect, level: str, what: str, root: ClassInfo, states: dict[str, str], diffs: dict[str, tuple], values: dict[str, dict], root_diffs: Optional[dict] = None) -> None:
        self.d, self.level, self.what, self.root = d, level, what, root
        self.states, self.diffs, self.values, self.root_diffs = states, diffs, values, root_diffs or {}

    def cls(self, coll: str) -> Optional[ClassInfo]:
        return self.root if coll == "root" else self.d.classes.get(coll)


PROPERTIES: dict = {}
S, TGT = T("selem", ("root", "changed")), T("telem", ("root", "changed"))


class Abstract:
    def __init__(self, ctx: Ctx, case: Case, given: dict, limits: frozenset = frozenset()) -> None:
        self.ctx, self.case, self.given, self.limits = ctx, case, given, limits

    # values of attributes

    def differing(self, e: T) -> dict[str, tuple]:
        coll, kind = e.args
        if kind != "changed":
            return {}
        return self.case.root_diffs if coll == "root" else self.case.diffs

    def resolve(self, t: T) -> T:
        "The value of a term where it is determined."
        while True:
            if t.op == "phi":
                c = self.truth(t.args[0])
                if c is None:
                    return t
                t = t.args[1] if c else t.args[2]
            elif t.op in ("copy", "await") and isinstance(t.args[0], T):
                t = t.args[0]
            elif t.op == "attr" and t.args[0].op in ("selem", "telem"):
                e, a = t.args
                diff = self.differing(e).get(a)
                v = diff[0 if e.op == "selem" else 1] if diff is not None else self.given.get((e.args[0], a))
                if v in (None, "none") or isinstance(v, bool):
                    if v is None:
                        x = self.expand(t)
                        if x is t:
                            return t
                        t = x
                        continue
                    return NONE_T if v == "none" else const(v)
                return t
            elif t.op == "attr":
                base = self.resolve(t.args[0])
                if base is t.args[0]:
                    return t
                t = T("attr", (base, t.args[1]), t.ty)
            elif t.op in ("call", "sub") and (x := self.lookup(t)) is not None:
                return x
            elif t.op in ("call",) and (x := self.expand(t)) is not t:
                t = x
            else:
                return t

    def expand(self, t: T) -> T:
        "A property of an object class of the dialect."
        if t.op == "attr" and t.args[0].op in ("selem", "telem"):
            c = self.case.cls(t.args[0].args[0])
            f = c.find_method(t.args[1]) if c is not None else None
            if f is None:
                return t
            key = (c, t.args[1])
            if key not in PROPERTIES:
                PROPERTIES[key] = self.ctx.run(f, c, inline=lambda g, recv: g.cls is not None and g.cls in c.project_mro() and g.name not in TEXT or g.name.startswith("_") and not g.name.startswith("__")).value
            return subst(PROPERTIES[key], T("param", ("self",)), t.args[0])
        return t

    def lookup(self, t: T) -> Optional[T]:
        "An element looked up by name in the other collection."
        if t.op == "call" and method_name(t) in ("get", "__getitem__") and t.args[1] is not None and t.args[2]:
            coll, key = self.side(t.args[1]), t.args[2][0][1]
        elif t.op == "sub":
            coll, key = self.side(t.args[0]), t.args[1]
        else:
            return None
        e = self.element(key)
        if coll is None or e is None or e.args[0] != coll[1]:
            return None
        return self.counterpart(e, coll[0])

    def counterpart(self, e: T, side: str) -> Optional[T]:
        kind = e.args[1]
        if kind in ("changed", "common"):
            return T("selem" if side == "s" else "telem", e.args)
        return e if (e.op == "selem") == (side == "s") else NONE_T

    def element(self, t: T) -> Optional[T]:
        "The element that an object or its name stands for."
        for _ in range(6):
            if t.op in ("selem", "telem"):
                return t
            if t.op == "attr" and t.args[1] in ("name", "id", "local_id"):
                t = t.args[0]
            elif t.op == "proj" and t.args[0].op == "tup":
                t = t.args[0].args[t.args[1]]
            else:
                return None
        return None

    def side(self, t: T) -> Optional[tuple[str, str]]:
        t = plain(t)
        while t.op == "call" and method_name(t) in ("keys", "values", "items") and t.args[1] is not None:
            t = plain(t.args[1])
        if t.op == "attr" and t.args[0] in (S, TGT) and t.args[1] in COLLECTIONS:
            return "s" if t.args[0] == S else "t", t.args[1]
        return None

    # conditions

    def truth(self, t: T) -> Optional[bool]:
        t = self.resolve(t)
        if t.op == "const":
            return bool(t.args[0])
        if t.op == "not":
            v = self.truth(t.args[0])
            return None if v is None else not v
        if t.op in ("and", "or"):
            vs = [self.truth(a) for a in t.args]
            stop = t.op == "or"
            if stop in vs:
                return stop
            return None if None in vs else not stop
        if t.op == "phi":
            a, b = self.truth(t.args[1]), self.truth(t.args[2])
            return a if a == b else None
        if t.op == "isnone":
            return self.none(t.args[0])
        if t.op == "cmp":
            op, a, b = t.args
            if op in ("==", "!=", "is", "is not"):
                v = self.equal(a, b)
                return v if v is None or op in ("==", "is") else not v
            if a.op == "len" or b.op == "len":
                n = self.nonempty((a if a.op == "len" else b).args[0])
                k = b if a.op == "len" else a
                if n is not None and is_const(k, 0) and op in (">", "<"):
                    return n
                if outline(t) in self.limits:
                    # beyond the limit, an error is raised
                    return False
            return None
        if t.op == "in":
            e, coll = self.element(t.args[0]), self.side(t.args[1])
            if e is not None and coll is not None and e.args[0] == coll[1]:
                return self.counterpart(e, coll[0]) is not NONE_T
            return None
        if t.op == "exists":
            found: Optional[bool] = False
            for bind, must in self.elements(t.args[0], t.args[1]):
                v = self.truth(bind(t.args[2]))
                if v is True and must:
                    return True
                if v is not False:
                    found = None
            return found
        if t.op == "attr" and is_self_attr(t.args[0], "options"):
            return True
        if t.op in ("seq", "join", "sorted", "listof", "tupleof", "setof", "reversed", "ornone", "tmpl"):
            return self.nonempty(t)
        if t.op == "len":
            return self.nonempty(t.args[0])
        if t.op == "call":
            e = self.element(t.args[1]) if t.args[1] is not None else None
            if method_name(t) == "is_alter_table" and e is not None:
                # a constraint that is written when the table is created
                return True if e.args[1] != "common" else None
            n = self.none(t)
            if n is not None and method_name(t) in MUTATE:
                return not n
            if n:
                return False
        if t.op in ("selem", "telem"):
            return True
        if t.op == "attr" and t.args[0].op in ("selem", "telem"):
            diff = self.differing(t.args[0]).get(t.args[1])
            if diff is not None or self.given.get((t.args[0].args[0], t.args[1])) is not None:
                # neither missing nor False
                return True
        return None

    def none(self, t: T) -> Optional[bool]:
        t = self.resolve(t)
        if t.op == "const":
            return t.args[0] is None
        if t.op in ("tmpl", "strop", "new", "seq", "join", "tup", "selem", "telem", "fmt", "slice"):
            return False
        if t.op in ("sub", "proj") and t.args[0].op == "call" and method_name(t.args[0]).lstrip(".") in ("split", "rsplit", "partition", "rpartition", "splitlines"):
            return False  # a part of a text
        if t.op == "phi":
            a, b = self.none(t.args[1]), self.none(t.args[2])
            return a if a == b else None
        if t.op == "ornone":
            v = self.nonempty(t.args[0])
            return None if v is None else not v
        if t.op == "attr" and t.args[0].op in ("selem", "telem"):
            e, a = t.args
            diff = self.differing(e).get(a)
            if diff is not None or (e.args[0], a) in self.given:
                return False
            c = self.case.cls(e.args[0])
            if c is not None and a in fields(c):
                return False
            return None
        if t.op == "call":
            n = method_name(t)
            if n in ("create_schema_stmt", "create_objects_stmt", "drop_objects_stmt", "drop_schema_stmt") and t.args[1] is not None and t.args[1].op in ("selem", "telem"):
                # a namespace has a name, or objects (see `complete`)
                return False if n.endswith("objects_stmt") and t.args[1].args[1] in ("new", "gone") else None
            if n in MUTATE:
                a, b = [v for _, v in t.args[2]][:2]
                v = self.equal(a, b)
                return v
            f = t.meta if isinstance(t.meta, FuncInfo) else None
            if f is not None and f.node is not None and getattr(f.node, "returns", None) is not None:
                text = ast.unparse(f.node.returns)
                return None if "Optional" in text or "None" in text else False
        return None

    def equal(self, a: T, b: T) -> Optional[bool]:
        a, b = self.resolve(a), self.resolve(b)
        if a.op == "const" and b.op == "const":
            return a.args[0] == b.args[0]
        na, nb = self.none(a), self.none(b)
        if na is not None and nb is not None and (na or nb):
            return na == nb
        if a.op in ("selem", "telem") and b.op in ("selem", "telem"):
            if a.args != b.args:
                return None
            if a.op == b.op:
                return True
            compared = equality(self.ctx, self.case.cls(a.args[0]))
            return not any(k in compared for k in self.differing(a)) and not (a.args[0] == "constraints" and a.args[1] == "changed" and not self.differing(a) and self.case.states.get("constraints") == "changed") \
                and not (a.args[1] == "changed" and self.case.states.get(a.args[0]) == "changed" and not self.differing(a))
        if a.op in LOGICAL and b.op in LOGICAL:
            va, vb = self.truth(a), self.truth(b)
            if va is not None and vb is not None:
                return va == vb
        if one_sided(a, b):
            x = rewrite(a, lambda y: T("telem", y.args) if y.op == "selem" else None)
            y = rewrite(b, lambda y: T("telem", y.args) if y.op == "selem" else None)
            if x == y:
                if not any(z.op == "attr" and z.args[0].op == "telem" and z.args[1] in self.differing(z.args[0]) for z in walk(self.deep(x))):
                    return True
                # what tells only part of a value may be the same for different values
                return None if any(z.op in PARTIAL or z.op == "call" and z.args[0] == "type" for z in outcome(x)) else False
        return None

    def deep(self, t: T) -> T:
        return rewrite(t, lambda x: (lambda y: y if y is not x else None)(self.expand(x)) if x.op == "attr" else None)

    # collections

    def elements(self, src: T, bv: T) -> Iterator[tuple]:
        "The elements that a loop visits: a function that puts the element in place of the variable, and whether it is visited for certain."
        src = plain(self.resolve(plain(src)))
        view = ""
        if src.op == "call" and method_name(src) in ("values", "keys", "items") and src.args[1] is not None and self.side(src.args[1]):
            view = method_name(src)
        if src.op == "call" and method_name(src) in ("difference", "intersection") and src.args[2]:
            a, b = self.side(src.args[1]), self.side(src.args[2][0][1])
            if a is not None and b is not None and a[1] == b[1]:
                state = self.case.states.get(a[1], "same")
                if method_name(src) == "difference":
                    if a[0] != b[0]:
                        if a[0] == "t" and state == "added":
                            yield put(bv, T("telem", (a[1], "new"))), True
                        if a[0] == "s" and state == "removed":
                            yield put(bv, T("selem", (a[1], "gone"))), True
                    return
                for kind, must in (("changed", True),) * (state == "changed") + (("common", False),):
                    one = T("selem" if a[0] == "s" else "telem", (a[1], kind))
                    other = T("selem" if b[0] == "s" else "telem", (a[1], kind))
                    yield pair(bv, one, other), must
                return
        coll = self.side(src)
        if coll is not None:
            state = self.case.states.get(coll[1], "same")
            op = "selem" if coll[0] == "s" else "telem"
            kinds = [("common", False)]
            if state == "changed":
                kinds.insert(0, ("changed", True))
            if state == "added" and op == "telem":
                kinds.insert(0, ("new", True))
            if state == "removed" and op == "selem":
                kinds.insert(0, ("gone", True))
            for kind, must in kinds:
                e = T(op, (coll[1], kind))
                if view == "items":
                    yield pair(bv, T("attr", (T("attr", (e, "name")), "local_id")), e), must
                elif view == "keys" or view == "" and coll[1] != "values" and not src.op == "call":
                    yield put(bv, T("attr", (T("attr", (e, "name")), "local_id"))), must
                else:
                    yield put(bv, e), must
            return
        if src.op == "seq":
            for v, must in self.items(src.args[1]):
                yield put(bv, v), must
            return
        yield (lambda t: t), False

    def items(self, items: tuple, certain: bool = True) -> Iterator[tuple[T, bool]]:
        "Items of a collection that may be present, and whether they are."
        for i in items:
            if i.op == "item":
                yield i.args[0], certain
            elif i.op == "if":
                c = self.truth(i.args[0])
                if c is True:
                    yield from self.items(i.args[1], certain)
                elif c is False:
                    yield from self.items(i.args[2], certain)
                else:
                    a, b = list(self.items(i.args[1], certain)), list(self.items(i.args[2], certain))
                    both = certain and any(m and self.none(v) is False for v, m in a) and any(m and self.none(v) is False for v, m in b)
                    for v, m in a + b:
                        yield v, m and both
            elif i.op == "for":
                for bind, must in self.elements(i.args[0], i.args[1]):
                    yield from self.items(tuple(bind(x) for x in i.args[2]), certain and must and len(i.args) == 3)
            elif i.op == "splice":
                s = plain(self.resolve(plain(i.args[0])))
                if s.op == "seq":
                    yield from self.items(s.args[1], certain)
                elif s.op == "phi":
                    yield from self.items((T("if", (s.args[0], (T("splice", (s.args[1],)),), (T("splice", (s.args[2],)),))),), certain)
                else:
                    bv = T("bv", ("splice", id(i)))
                    for bind, must in self.elements(s, bv):
                        yield bind(bv), certain and must

    def nonempty(self, t: T) -> Optional[bool]:
        t = plain(self.resolve(plain(t)))
        if t.op == "const":
            return bool(t.args[0])
        if t.op == "tmpl":
            return True if any(isinstance(p, str) and p for p in t.args) else None
        if t.op == "join":
            t = plain(t.args[1])
            text = True
        else:
            text = False
        if t.op == "phi":
            a, b = self.nonempty(t.args[1]), self.nonempty(t.args[2])
            return a if a == b else None
        if t.op == "ornone":
            return self.nonempty(t.args[0])
        if t.op == "tup":
            return bool(t.args)
        if t.op == "seq":
            result: Optional[bool] = False
            for v, must in self.items(t.args[1]):
                present: Optional[bool] = True
                if text:
                    n = self.none(v)
                    present = None if n is None else not n
                    if present and v.op == "join":
                        present = self.nonempty(v)
                if present and must:
                    return True
                if present is not False:
                    result = None
            return result
        bv = T("bv", ("any", id(t)))
        result = False
        for bind, must in self.elements(t, bv):
            if must:
                return True
            result = None
        return result

    # statements

    def statements(self, t: T, certain: bool = True) -> Iterator[tuple[T, bool]]:
        "Statements that a result is composed of, as deep as lists go."
        t = plain(self.resolve(plain(t)))
        if t.op in ("ornone", "join"):
            yield from self.statements(t.args[0] if t.op == "ornone" else t.args[1], certain)
        elif t.op == "seq":
            for v, m in self.items(t.args[1]):
                yield from self.statements(v, certain and m)
        elif t.op == "phi":
            yield from self.statements(t.args[1], False)
            yield from self.statements(t.args[2], False)
        elif t.op == "call" and method_name(t) == "alter_table_stmt" and t.args[2]:
            yield from self.statements(t.args[2][0][1], certain)
        elif is_const(t, None):
            return
        else:
            yield t, certain

    def texts(self, t: T, about: tuple) -> Iterator[tuple[str, list[T]]]:
        "The possible wording of a statement."
        t = self.spell(t, about)
        for v in variants(t):
            if any(self.truth(c) is False for c in v.pc):
                continue
            text, holes = "", []
            for p in v.parts:
                if isinstance(p, str):
                    text += p
                elif isinstance(p, Hole):
                    text += "\x00"
                    holes.append(p.term)
                elif isinstance(p, Rep):
                    text += "\x00"
                    holes.append(p.seq)
            yield text, holes

    def spell(self, t: T, about: tuple) -> T:
        "Text made by the objects of the dialect themselves."

        def fn(x: T) -> Optional[T]:
            if x.op == "join" and plain(x.args[1]).op == "seq":
                parts: list = []
                for v, _ in self.items(plain(x.args[1]).args[1]):
                    v = self.resolve(v)
                    elems = {y.args for y in walk(v) if y.op in ("selem", "telem")} - {("root", "changed")}
                    if not is_const(v, None) and not (elems and about not in elems):
                        parts += [x.args[0].args[0] if x.args[0].op == "const" else " ", v]
                return self.spell(T("tmpl", tuple(p for p in parts[1:] if p != "")), about) if parts else const("")
            if x.op == "attr" and x.args[0].op in ("selem", "telem"):
                y = self.expand(x)
                return self.spell(y, about) if y is not x else None
            if x.op == "call" and x.args[1] is not None and x.args[1].op in ("selem", "telem") and method_name(x) in TEXT | {"default_constraint_name"}:
                c = self.case.cls(x.args[1].args[0])
                f = c.find_method(method_name(x)) if c is not None else None
                if f is None or x.args[1].args[0] == "root":
                    return None
                r = self.ctx.run(f, c, inline=lambda g, recv: g.cls is not None and g.cls in c.project_mro() or g.name.startswith("_") and not g.name.startswith("__"))
                y = subst(r.value, T("param", ("self",)), x.args[1])
                for k, v in x.args[2]:
                    y = subst(y, T("param", (k,)), v)
                return self.spell(y, about)
            return None

        return rewrite(t, fn)


def plain(t: T) -> T:
    while t.op in ("copy", "listof", "tupleof", "setof", "sorted", "reversed", "iter", "await") and isinstance(t.args[0], T):
        t = t.args[0]
    return t


def outcome(t: T) -> Iterator[T]:
    "Subterms, leaving out conditions of alternatives."
    yield t
    for x in t.args[1:] if t.op == "phi" else t.args:
        for y in x if isinstance(x, tuple) else (x,):
            for z in y if isinstance(y, tuple) else (y,):
                if isinstance(z, T):
                    yield from outcome(z)


def outline(t: T) -> T:
    return rewrite(t, lambda x: T("any") if x.op in ("selem", "telem", "bv", "param") or x.op == "proj" and x.args[0].op == "bv" else None)


def put(bv: T, e: T):
    if e.op == "tup" and len(e.args) == 2:
        return pair(bv, *e.args)
    return lambda t: subst(t, bv, e)


def pair(bv: T, a: T, b: T):
    def fn(x: T) -> Optional[T]:
        if x.op == "proj" and x.args[0] == bv:
            return a if x.args[1] == 0 else b
        return T("tup", (a, b)) if x == bv else None

    return lambda t: rewrite(t, fn)


def one_sided(a: T, b: T) -> bool:
    "Each of the two is made of one definition only."
    sides = [{x.op for x in walk(t) if x.op in ("selem", "telem")} for t in (a, b)]
    return all(len(s) <= 1 for s in sides) and all(sides)


def fields(c: ClassInfo) -> dict[str, str]:
    "Attributes declared by a class and its bases, with their types."
    out: dict[str, str] = {}
    for k in reversed(c.project_mro()):
        for n in k.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                out[n.target.id] = ast.unparse(n.annotation)
    return out


def equality(ctx: Ctx, c: Optional[ClassInfo]) -> set[str]:
    "Attributes that are compared when two objects of a class are tested for equality."
    if c is None:
        return set()
    for k in c.project_mro():
        if "__eq__" in k.methods:
            f = k.methods["__eq__"]
            r = ctx.run(f, c)
            return {x.args[1] for x in walk(r.value) if x.op == "attr" and x.args[0] == T("param", ("self",))}
        d = decorator(k)
        if d is None:
            continue
        if d.get("eq", True) is False:
            continue
        out = set()
        for m in reversed(k.project_mro()):
            if decorator(m) is None:
                continue
            for n in m.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and "ClassVar" not in ast.unparse(n.annotation):
                    out.add(n.target.id)
                    if isinstance(n.value, ast.Call) and any(w.arg == "compare" and isinstance(w.value, ast.Constant) and w.value.value is False for w in n.value.keywords):
                        out.discard(n.target.id)
        return out
    return set()


def decorator(c: ClassInfo) -> Optional[dict]:
    for d in c.node.decorator_list:
        f = d.func if isinstance(d, ast.Call) else d
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        if name == "dataclass":
            return {k.arg: k.value.value for k in d.keywords if isinstance(k.value, ast.Constant)} if isinstance(d, ast.Call) else {}
    return None


# -- attributes written when an object is created


def written(ctx: Ctx, c: ClassInfo, names: tuple[str, ...]) -> set[str]:
    "Attributes of the object itself that are part of the text of its creation."
    out: set[str] = set()
    for n in names:
        f = c.find_method(n)
        if f is None:
            continue
        r = ctx.run(f, c, inline=lambda g, recv: g.cls is not None and g.cls in c.project_mro() or g.name.startswith("_") and not g.name.startswith("__"))
        out |= {x.args[1] for x in walk(r.value) if x.op == "attr" and x.args[0] == T("param", ("self",))}
    return {a for a in out if a in fields(c)} - {"name"}


def written_elements(ctx: Ctx, c: ClassInfo, coll: str, e: ClassInfo) -> set[str]:
    "Attributes of elements that are part of the text of the creation of the whole."
    f = c.find_method("create_stmt")
    r = ctx.run(f, c, inline=lambda g, recv: g.cls is not None and g.cls in c.project_mro() or g.name.startswith("_") and not g.name.startswith("__"))
    out: set[str] = set()
    own = set()
    for x in walk(r.value):
        if x.op == "for" and any(y == T("attr", (T("param", ("self",)), coll)) for y in walk(x.args[0])):
            own.add(x.args[1])
    for x in walk(r.value):
        if x.op == "attr" and x.args[0] in own:
            out.add(x.args[1])
    whole = any(x.op == "tmpl" and any(p in own for p in x.args) or x.op == "str" and x.args[0] in own for x in walk(r.value)) or \
        any(x.op == "item" and x.args[0] in own for x in walk(r.value)) or any(x.op == "call" and (x.args[1] in own or any(v in own for _, v in x.args[2])) for x in walk(r.value))
    # a text that the element has besides its own
    texts = tuple(a for a in sorted(out) if a not in fields(e) and (m := e.find_method(a)) is not None and m.is_property)
    return {a for a in out if a in fields(e)} - {"name"} | (written(ctx, e, ("__str__",)) if whole else set()) | (written(ctx, e, texts) if texts else set())


# -- check


def variants_of(ann: str) -> list[tuple]:
    if ann == "bool":
        return [(False, True), (True, False)]
    if "Optional" in ann or "None" in ann:
        return [("none", "new"), ("old", "none"), ("old", "new")]
    return [("old", "new")]


def givens(c: ClassInfo, coll: str, but: str = "") -> Iterator[dict]:
    "All combinations of what is known about attributes that are equal in source and target."
    names = [(a, (True, False) if t == "bool" else ("none", "some")) for a, t in fields(c).items() if a != but and (t == "bool" or "Optional" in t)]
    for vs in itertools.product(*[v for _, v in names]):
        yield {(coll, a): v for (a, _), v in zip(names, vs)}


def check(ctx: Ctx) -> None:
    PROPERTIES.clear()
    collections(ctx)
    direction(ctx)
    seen = set()
    for gen in hierarchy(ctx.prog, "BaseGenerator"):
        if not dialect_of(gen):
            continue
        d = Dialect(ctx, gen)
        key = (d.mutator, tuple(sorted((k, v.name) for k, v in d.classes.items())))
        if key in seen:
            continue
        seen.add(key)
        ctx.count("dialects")
        level(ctx, d, "mutate_enum_stmt", "enums")
        level(ctx, d, "mutate_struct_stmt", "structs")
        level(ctx, d, "mutate_table_stmt", "tables")
        level(ctx, d, "mutate_namespace_stmt", "namespaces")
        level(ctx, d, "mutate_catalog_stmt", "")
        complete(ctx, d)
    types(ctx)
    ctx.minimum("dialects", 6)
    ctx.minimum("cases", 150)


def cases(ctx: Ctx, d: Dialect, name: str, root: ClassInfo) -> Iterator[tuple[Case, str, str, str]]:
    "A case, the collection whose attributes are enumerated, the attribute that differs and what is required."
    if name == "mutate_enum_stmt":
        yield Case(d, name, "equal", root, {}, {}, {}), "root", "", "quiet"
        yield Case(d, name, "value added", root, {"values": "added"}, {}, {}), "root", "", "acts"
        yield Case(d, name, "value removed", root, {"values": "removed"}, {}, {}), "root", "", "raises"
        return
    inner = INNER.get(name)
    if inner:
        e = d.classes[inner]
        yield Case(d, name, "equal", root, {}, {}, {}), inner, "", "quiet"
        yield Case(d, name, f"{inner} added", root, {inner: "added"}, {}, {}), inner, "", "acts"
        yield Case(d, name, f"{inner} removed", root, {inner: "removed"}, {}, {}), inner, "", "acts"
        attrs = written_elements(ctx, root, inner, e)
        if not attrs:
            raise AnalysisError(f"what {root.name} writes of its {inner} is not recognised")
        for a in sorted(attrs):
            for v in variants_of(fields(e)[a]):
                yield Case(d, name, f"{inner}: {a}: {text_of(v)}", root, {inner: "changed"}, {a: v}, {}), inner, a, "acts"
        for a in sorted(written(ctx, root, ("create_stmt",)) - {inner}):
            if a == "constraints":
                continue
            for v in variants_of(fields(root)[a]):
                yield Case(d, name, f"{a}: {text_of(v)}", root, {}, {}, {}, {a: v}), "root", a, "acts"
        if name == "mutate_table_stmt":
            for state in ("added", "removed"):
                yield Case(d, name, f"constraints {state}", root, {"constraints": state}, {}, {}), inner, "", "acts"
            yield Case(d, name, "constraints changed", root, {"constraints": "changed"}, {}, {}), inner, "", "raises"
        return
    yield Case(d, name, "equal", root, {}, {}, {}), "root", "", "quiet"
    for coll in ("enums", "structs", "tables") if name == "mutate_namespace_stmt" else ("namespaces",):
        for state in ("added", "removed", "changed"):
            yield Case(d, name, f"{coll} {state}", root, {coll: state}, {}, {}), "root", "", "acts"


def text_of(v: tuple) -> str:
    return f"{v[0]} -> {v[1]}"


def level(ctx: Ctx, d: Dialect, name: str, coll: str) -> None:
    f = d.mutator.find_method(name)
    if f is None:
        raise AnalysisError(f"no {name} in {d.mutator.name}")
    root = d.classes[coll] if coll else ctx.prog.find_class("Catalog")
    r = ctx.run(f, d.mutator, inline=inline(name))
    a, b = [x.arg for x in f.args.args[1:3]]

    def fix(t: T) -> T:
        return rewrite(t, lambda x: S if x == T("param", (a,)) else TGT if x == T("param", (b,)) else None)

    value = fix(r.value)
    raises = [(e, tuple(fix(p) for p in e.pc)) for e in events(r) if e.op == "raise"]
    limits = frozenset(outline(x) for _, pc in raises for p in pc for x in walk(p) if x.op == "cmp" and any(y.op == "len" for y in x.args[1:]))
    ignored: set[str] = set()
    for case, enum, attr, required in cases(ctx, d, name, root):
        ctx.count("cases")
        c = case.cls(enum)
        who = f"{d.name}: {name}: {case.what}"
        problem = None
        for given in givens(c, enum, attr) if c is not None else [{}]:
            ab = Abstract(ctx, case, given, limits)
            none = ab.none(value)
            fails = [raised(ab, pc) for _, pc in raises]
            if required == "quiet":
                if none is not True:
                    problem = f"there may be a statement: {[show(x)[:80] for x, _ in ab.statements(value)][:2]}"
                if any(v is True or v is None and not guess and compares(pc) for (v, guess), (_, pc) in zip(fails, raises)):
                    problem = "there may be an error"
            elif required == "raises":
                if not any(v is True for v, _ in fails):
                    problem = "there is no error"
            else:
                if none is not False and not any(v is True for v, _ in fails):
                    problem = "there is no statement that acts on the difference"
                elif none is False and not any(v is True for v, _ in fails):
                    problem = stated(ab, case, enum, attr, value)
            if problem:
                shown = ", ".join(f"{k[1]}={v}" for k, v in given.items())
                problem += f" ({shown})" if shown else ""
                break
        ctx.check(problem is None, {"quiet": "quiet", "raises": "raises"}.get(required, "acts"), who, f.loc(), problem or "")
        if problem and attr:
            ignored.add(attr)
    if name in INNER:
        joint(ctx, d, name, root, INNER[name], value, raises, limits, f.loc(), ignored)


def joint(ctx: Ctx, d: Dialect, name: str, root: ClassInfo, inner: str, value: T, raises: list, limits: frozenset, loc: str, ignored: set[str]) -> None:
    "Of two attributes that differ together, neither is ignored."
    e = d.classes[inner]
    types = fields(e)
    attrs = [a for a in sorted(written_elements(ctx, root, inner, e)) if a not in ignored]
    target = (inner, "changed")
    memo: dict = {}

    def wording(diffs: dict, given: dict) -> tuple[set, Abstract, bool]:
        key = (tuple(sorted(diffs.items())), tuple(sorted(given.items())))
        if key not in memo:
            ab = Abstract(ctx, Case(d, name, "", root, {inner: "changed"}, diffs, {}), given, limits)
            memo[key] = {(text, tuple(holes)) for s, _ in ab.statements(value) for text, holes in ab.texts(s, target)}, ab, any(raised(ab, pc)[0] is True for _, pc in raises)
        return memo[key]

    for a, b in itertools.permutations(attrs, 2):
        if {a, b} == {"nullable", "identity"}:
            # an identity column is never null
            continue
        problem = None
        for v, w in itertools.product(variants_of(types[a]), variants_of(types[b])):
            for given in givens(e, inner, a):
                if (inner, b) in given and given[(inner, b)] != (w[0] if isinstance(w[0], bool) else "none" if w[0] == "none" else "some"):
                    continue
                given = {k: x for k, x in given.items() if k != (inner, b)}
                both, ab, fails = wording({a: v, b: w}, given)
                if fails:
                    continue
                before = {} if types[a] != "bool" and "Optional" not in types[a] else {(inner, a): v[0] if isinstance(v[0], bool) else "none" if v[0] == "none" else "some"}
                alone, _, _ = wording({b: w}, {**given, **before})
                ref = T("attr", (T("telem", target), a))
                says = v[1] == "new" and any(ref in set(walk(h)) for _, holes in both for h in holes)
                if both == alone and not says:
                    problem = f"{a}: {text_of(v)} is ignored if {b}: {text_of(w)}"
        ctx.count("cases")
        ctx.check(problem is None, "joint", f"{d.name}: {name}: {inner}: {a} and {b}", loc, problem or "")


def compares(pc: tuple) -> bool:
    "Whether an error depends on both definitions."
    return any({S, TGT} <= set(walk(p)) or p.op != "each" and any(x.op == "proj" for x in walk(p)) and len({x.args[1] for x in walk(p) if x.op == "proj"}) > 1 for p in pc)


def raised(ab: Abstract, pc: tuple) -> tuple[Optional[bool], bool]:
    "Whether an error is raised under a condition, and whether that is a matter of another error."
    if not pc:
        return True, False
    p, rest = pc[0], pc[1:]
    if p.op == "each":
        result: Optional[bool] = False
        guess = False
        for bind, must in ab.elements(p.args[0], p.args[1]):
            v, g = raised(ab, tuple(bind(x) for x in rest))
            guess = guess or g
            if v is True and must:
                return True, False
            if v is not False:
                result = None
        return result, guess
    if p.op == "exc":
        return None, True
    v = ab.truth(p)
    if v is False:
        return False, False
    w, guess = raised(ab, rest)
    if w is False:
        return False, guess
    return (True if v and w else None), guess


NOT_NULL = re.compile(r"(?<!DROP )\bNOT NULL\b")
GENERATED = re.compile(r"(?<!DROP )\b(IDENTITY|AUTO_INCREMENT)\b")


def stated(ab: Abstract, case: Case, enum: str, attr: str, value: T) -> Optional[str]:
    "The statement says what the target is like."
    if not attr:
        coll, state = next(iter(case.states.items()))
        e = {"added": T("telem", (coll, "new")), "removed": T("selem", (coll, "gone"))}.get(state)
        if e is None:
            args = [tuple(v for _, v in x.args[2])[:2] for s, _ in ab.statements(value) for x in walk(s) if x.op == "call" and method_name(x) in MUTATE]
            return None if (T("selem", (coll, "changed")), T("telem", (coll, "changed"))) in args else "no statement takes the source to the target"
        sts = list(ab.statements(value))
        if case.level in ("mutate_namespace_stmt", "mutate_catalog_stmt"):
            found = any(e in set(walk(s)) for s, _ in sts)
        else:
            spelled = [(text, holes) for s, _ in sts for text, holes in ab.texts(s, e.args)]
            found = any(e in set(walk(h)) for _, holes in spelled for h in holes)
            if found and state == "added" and enum == coll:
                inside = {x for _, holes in spelled for h in holes for x in walk(h)}
                if any(plain(h) == e or h.op in ("str", "fmt") and h.args[0] == e for _, holes in spelled for h in holes):
                    inside |= {T("attr", (e, a)) for a in written(ab.ctx, case.cls(coll), ("__str__",))}
                for a in sorted(written_elements(ab.ctx, case.root, coll, case.cls(coll))):
                    t, given = fields(case.cls(coll))[a], ab.given.get((coll, a))
                    if t != "bool" and given != "none" and T("attr", (e, a)) not in inside:
                        return f"no statement states the {a} of what is new"
        return None if found else f"no statement {'creates what is new' if state == 'added' else 'removes what is gone'}"
    target = T("telem", (enum, "changed"))
    diff = (case.root_diffs if enum == "root" else case.diffs)[attr]
    kind = fields(case.cls(enum))[attr]
    spelled = [(text, holes) for s, _ in ab.statements(value) for text, holes in ab.texts(s, target.args) if any(x.op in ("selem", "telem") and x.args == target.args for h in holes for x in walk(h))]
    if kind == "bool":
        rx = NOT_NULL if attr == "nullable" else GENERATED if attr == "identity" else None
        if rx is None:
            return None
        want = diff[1] if attr == "identity" else not diff[1]
        has = [bool(rx.search(text)) for text, _ in spelled]
        if attr == "nullable" and want and ab.given.get((enum, "identity")) is True:
            return None
        if want and not any(has):
            return f"no statement sets {attr} to {diff[1]}"
        if not want and any(has):
            return f"a statement sets {attr} to {not diff[1]}"
        return None
    if diff[1] == "new":
        ref = T("attr", (target, attr))
        if not any(ref in set(walk(h)) for _, holes in spelled for h in holes):
            return f"no statement states the {attr} of the target"
    return None


# -- matching of objects


def collections(ctx: Ctx) -> None:
    c = ctx.prog.find_class("ObjectDict")
    me, op = T("param", ("self",)), T("param", ("op",))
    inner = lambda g, recv: g.cls is c  # noqa: E731
    store = T("attr", (me, "_items"))

    for name in ("difference", "intersection"):
        f = c.find_method(name)
        r = ctx.run(f, c, inline=inner)
        other = T("param", (f.args.args[1].arg,))
        items = r.yields if r.yields else plain(r.value).args[1] if plain(r.value).op == "seq" else ()
        ok = False
        visited = by_key(items, me, other)
        if visited is not None:
            conds, v = visited
            theirs = T("sub", (other, KEY))
            both = {T("in", (KEY, other)), neg(T("isnone", (theirs,)))}
            if name == "difference":
                ok = v == MINE and len(conds) == 1 and conds[0] in {neg(x) for x in both}
            else:
                ok = v.op == "tup" and v.args == (MINE, theirs) and bool(conds) and all(x in both for x in conds)
        ctx.check(ok, "pairs", f"ObjectDict.{name}", f.loc(), f"not by name: {[show(i)[:160] for i in items]}")
    f = c.find_method("__contains__")
    v = ctx.run(f, c, inline=inner).value
    ctx.check(v == T("in", (T("param", (f.args.args[1].arg,)), store)) or v.op == "in" and v.args[0] == T("param", (f.args.args[1].arg,)) and store in set(walk(v.args[1])), "pairs", "ObjectDict.__contains__", f.loc(), f"an item is in the collection if {show(v)[:60]}")
    for name in ("__init__", "add"):
        f = c.find_method(name)
        r = ctx.run(f, c, inline=inner)
        keys = []
        for e in events(r):
            for x in walk(e):
                if x.op == "kv":
                    keys.append((x.args[0], x.args[1]))
            if e.op == "setitem":
                keys.append((e.args[1], e.args[2]))
        ok = bool(keys) and all(k.op == "attr" and k.args[1] in ("local_id", "id") and k.args[0] == T("attr", (v, "name")) for k, v in keys)
        ctx.check(ok, "pairs", f"ObjectDict.{name}", f.loc(), f"items are kept under {[show(k)[:60] for k, _ in keys]}")


KEY, MINE = T("bv", ("key",)), T("bv", ("item",))


def by_key(items: tuple, me: T, other: T) -> Optional[tuple[list[T], T]]:
    "Visits the items of a collection one by one: the conditions, and what is given, in terms of the key and the item."
    conds: list[T] = []
    sub: dict[T, T] = {}
    store = T("attr", (me, "_items"))

    def names(t: T) -> Optional[T]:
        "The collection whose keys these are."
        t = plain(t)
        if t.op == "attr" and t.args[1] == "_items":
            t = t.args[0]
        if t in (me, other):
            return t
        if t.op == "call" and method_name(t) == "keys":
            return names(t.args[1])
        if t.op == "seq" and len(t.args[1]) == 1 and t.args[1][0].op in ("for", "splice"):
            i = t.args[1][0]
            if i.op == "splice":
                return names(i.args[0])
            if len(i.args) == 3 and i.args[2] == (T("item", (i.args[1],)),):
                return names(i.args[0])
        return None

    def norm_term(t: T) -> T:
        def fn(x: T) -> Optional[T]:
            if x in sub:
                return sub[x]
            if x.op == "sub" or x.op == "call" and method_name(x) == "get":
                coll = names(x.args[0] if x.op == "sub" else x.args[1]) if x.op == "sub" or x.args[1] is not None else None
                args = [x.args[1]] if x.op == "sub" else [a for _, a in x.args[2]]
                if coll is not None and args and norm_term(args[0]) == KEY and all(is_const(a, None) for a in args[1:]):
                    return MINE if coll == me else T("sub", (coll, KEY))
            if x.op == "attr" and x.args[1] == "local_id" and norm_term(x.args[0]) == T("attr", (MINE, "name")):
                return KEY
            if x.op == "in" and norm_term(x.args[0]) == KEY:
                return among(x.args[1])
            return None

        return rewrite(t, fn)

    def among(coll: T) -> T:
        coll = plain(coll)
        which = names(coll)
        if which is not None:
            return T("const", (True,)) if which == me else T("in", (KEY, which))
        if coll.op in ("setop", "binop") and coll.args[0] == "Sub":
            return conj([among(coll.args[1]), neg(among(coll.args[2]))])
        if coll.op in ("setop", "binop") and coll.args[0] == "BitAnd":
            return conj([among(coll.args[1]), among(coll.args[2])])
        return T("in", (KEY, coll))

    def visit(i: T) -> Optional[T]:
        if i.op == "for" and len(i.args) == 3 and len(i.args[2]) == 1:
            src, bv, body = plain(i.args[0]), i.args[1], i.args[2]
            if src.op == "seq" and len(src.args[1]) == 1 and src.args[1][0].op == "for":
                elem = visit(src.args[1][0])
                if elem is None:
                    return None
                sub[bv] = elem
                return visit(body[0])
            if sub:
                return None
            if src.op == "call" and method_name(src) == "items" and names(src.args[1]) == me:
                sub.update({T("proj", (bv, 0)): KEY, T("proj", (bv, 1)): MINE})
            elif src.op == "call" and method_name(src) == "values" and names(src.args[1]) == me:
                sub[bv] = MINE
            elif names(src) == me:
                sub[bv] = KEY
            else:
                return None
            return visit(body[0])
        if i.op == "if" and len(i.args[1]) + len(i.args[2]) == 1:
            c = norm_term(i.args[0] if i.args[1] else neg(i.args[0]))
            conds.extend(x for x in (c.args[0] if c.op == "and" and isinstance(c.args[0], (tuple, frozenset)) else c.args if c.op == "and" else (c,)) if not is_const(x, True))
            return visit((i.args[1] or i.args[2])[0])
        if i.op == "item":
            return norm_term(i.args[0])
        return None

    if len(items) != 1:
        return None
    v = visit(items[0])
    return None if v is None else (conds, v)


# -- direction


def direction(ctx: Ctx) -> None:
    g = ctx.prog.find_class("BaseGenerator")
    f = g.find_method("get_mutate_stmt")
    r = ctx.run(f, g)
    calls = [x for x in walk(r.value) if x.op == "call" and method_name(x) == "mutate_catalog_stmt"]
    ok = len(calls) == 1 and [v for _, v in calls[0].args[2]] == [T("attr", (T("param", ("self",)), "state")), T("param", (f.args.args[1].arg,))]
    ctx.check(ok, "direction", f"{f.short}: arguments", f.loc(), f"compares {[show(x)[:80] for x in calls]}")


# -- whole namespaces


def complete(ctx: Ctx, d: Dialect) -> None:
    "A namespace that has objects has a statement to create and to remove them."
    root = d.classes["namespaces"]
    for name in ("create_objects_stmt", "drop_objects_stmt"):
        f = root.find_method(name)
        r = ctx.run(f, root, inline=c06.own)
        value = subst(r.value, T("param", ("self",)), S)
        for coll in ("enums", "structs", "tables"):
            ab = Abstract(ctx, Case(d, name, coll, root, {coll: "removed"}, {}, {}), {})
            ctx.check(ab.none(value) is False, "acts", f"{d.name}: {root.name}.{name}: {coll}", f.loc(), f"there is no statement for {coll}")


# -- equality of types and constraints


def types(ctx: Ctx) -> None:
    "Whatever the text of a type or constraint depends on is compared."
    for base, attr in (("SqlDataType", "__str__"), ("Constraint", "spec")):
        for c in [ctx.prog.find_class(base), *ctx.prog.find_class(base).all_subclasses()]:
            f = c.find_method(attr)
            if f is None or f.is_abstract:
                continue
            ctx.count("types and constraints")
            r = ctx.run(f, c, inline=lambda g, recv: g.cls is not None and g.cls in c.project_mro())
            read = {x.args[1] for x in walk(r.value) if x.op == "attr" and x.args[0] == T("param", ("self",))} & set(fields(c))
            missing = read - equality(ctx, c)
            ctx.check(not missing, "equality", f"{c.name}: {attr}", f.loc(), f"{sorted(missing)} is written but not compared")
    ctx.minimum("types and constraints", 20)
