"""
Decides that the result of a query is made of every row that the driver returned.

* `rows`: the value of the query operation of each dialect is evaluated with the functions that unpack a result-set in place. For each
  kind of signature (a data-class, each simple type, a tuple) the value the operation returns is one element for every row, in the order
  in which the driver returned them: a comprehension or loop over the rows, or the first row followed by the others, without a condition
  and without an early exit. An empty result is returned for no rows only. The rows are those of the statement passed.
* `element`: an element is an instance of the data-class whose fields take the values of the columns of the same name, all of them, the
  first column (simple type), or the row itself (tuple).
* `width`: evaluated for each kind of signature and each number of columns, an error is raised if and only if a simple type meets other
  than one column, or a tuple type other than as many columns as it has items; a signature of another kind is refused.
* `passed`: the operations that callers use pass the signature and the statement on, and return the rows, or the first of them.
"""

from __future__ import annotations

from typing import Iterator, Optional

from ..common import hierarchy, method_name
from ..framework import Ctx, events
from ..program import ClassInfo, FuncInfo
from ..terms import T, closure_env, is_const, neg, show, walk

ASSUMPTIONS = [
    "`fetch` (asyncpg) and `fetchall` of a cursor return all rows of the statement executed last, in order; the rows that asyncpg and the dictionary cursor of aiomysql return are mappings of column names",
    "oracledb calls the row factory of a cursor with the values of the columns in the order of the SELECT list: columns are matched with fields by position",
    "a driver that returns rows as attributes names them like the columns",
]
SIMPLE = ("bool", "int", "float", "str")
KINDS = ("dataclass", *SIMPLE, "tuple", "other")
FETCH = (".fetchall", ".fetch")


def check(ctx: Ctx) -> None:
    base = ctx.prog.find_class("BaseContext")
    for c in hierarchy(ctx.prog, "BaseContext"):
        f = c.methods.get("_query_all")
        if f is not None and not f.is_abstract:
            ctx.count("contexts")
            Query(ctx, c, f).check()
    passed(ctx, base)
    ctx.minimum("contexts", 5)
    ctx.minimum("signatures", 20)
    ctx.minimum("rows", 20)
    ctx.minimum("widths", 30)


def passed(ctx: Ctx, base: ClassInfo) -> None:
    for c in hierarchy(ctx.prog, "BaseContext"):
        for name in ("query_all", "query_one"):
            f = c.methods.get(name)
            if f is None:
                continue
            ctx.count("operations")
            r = ctx.run(f, c, inline=lambda g, x: g.module.name.startswith("pysqlsync") and g.name not in ("_query_all", "query_all"))
            sig, stmt = (T("param", (a.arg,)) for a in f.args.args[1:3])
            for v, pc in r.returns:
                one = v
                if name == "query_one":
                    ok = v.op == "sub" and is_const(v.args[1], 0) or v.op in ("next", "proj") and (v.op == "next" or v.args[1] == 0)
                    one = v.args[0] if ok else v
                    ctx.check(ok, "passed", f"{f.short}: first", f.loc(), f"the only row is {show(v)[:90]}")
                ok = one.op == "call" and method_name(one) in ("_query_all", "query_all") and [x for _, x in one.args[2]] == [sig, stmt]
                ctx.check(ok, "passed", f"{f.short}: rows", f.loc(), f"the rows returned are {show(one)[:90]}")


def private(f: FuncInfo) -> bool:
    return f.cls is None or f.name.startswith("_") and f.name != "_query_all"


class Query:
    def __init__(self, ctx: Ctx, c: ClassInfo, f: FuncInfo) -> None:
        self.ctx, self.cls, self.f = ctx, c, f
        self.sig, self.stmt = (T("param", (a.arg,)) for a in f.args.args[1:3])
        it = ctx.interp(lambda g, x: private(g))
        self.r = it.run(f, c)
        ctx.analysed(f)
        self.unordered = it.set_iterations
        self.label = f.short
        # whether there are no rows
        self.none = False

    # -- truth of conditions for a kind of signature and a number of columns

    def truth(self, t: T, kind: str, width: Optional[int]) -> Optional[bool]:
        if t.op == "const":
            return bool(t.args[0])
        if t.op == "not":
            x = self.truth(t.args[0], kind, width)
            return None if x is None else not x
        if t.op in ("and", "or"):
            xs = [self.truth(x, kind, width) for x in t.args]
            stop = t.op == "or"
            return stop if stop in xs else None if None in xs else not stop
        if t.op == "call" and str(t.args[0]).split(".")[-1] in ("is_dataclass_type", "is_dataclass") and t.args[2] and t.args[2][0][1] == self.sig:
            return kind == "dataclass"
        if t.op == "in" and t.args[0] == self.sig:
            coll = t.args[1]
            elems = coll.args[1] if coll.op == "seq" else coll.args if coll.op == "tup" else None
            if elems is not None:
                xs = [x.args[0] if x.op == "item" else x for x in elems]
                if all(x.op == "extern" for x in xs):
                    return any(x.args[0].split(".")[-1] == kind for x in xs)
        if t.op == "cmp" and t.args[0] in ("==", "is", "!=", "is not"):
            a, b = t.args[1], t.args[2]
            same: Optional[bool] = None
            for x, y in ((a, b), (b, a)):
                if y == self.sig and x.op == "extern":
                    same = x.args[0].split(".")[-1] == kind
                if y.op == "call" and str(y.args[0]).endswith("get_origin") and y.args[2][0][1] == self.sig:
                    if x.op == "extern":
                        same = kind == "tuple" and x.args[0] == "tuple"
                    elif is_const(x, None):
                        same = kind != "tuple"
            m, n = self.number(a, width), self.number(b, width)
            if m is not None and n is not None:
                same = m == n
            if same is not None:
                return same == (t.args[0] in ("==", "is"))
            return None
        if t.op == "cmp":
            m, n = self.number(t.args[1], width), self.number(t.args[2], width)
            if m is not None and n is not None:
                return {"<": m < n, "<=": m <= n, ">": m > n, ">=": m >= n}.get(t.args[0])
        if t.op == "exc":
            return self.none if t.args[0] == ("StopIteration",) else None
        if t.op == "call" and self.is_rows(t):
            return not self.none
        if t.op == "empty" and self.is_rows(t.args[0]):
            return self.none
        return None

    def number(self, t: T, width: Optional[int]) -> Optional[int]:
        if t.op == "const" and type(t.args[0]) is int:
            return t.args[0]
        if t.op == "call" and t.args[0] == "len" or t.op == "len":
            x = t.args[0] if t.op == "len" else t.args[2][0][1]
            if self.is_first(x):
                return width
            if x.op == "call" and str(x.args[0]).endswith("get_args") and x.args[2][0][1] == self.sig:
                return 2
            if self.is_rows(x):
                return 0 if self.none else 3
        return None

    # -- rows

    def is_rows(self, t: T) -> bool:
        "All the rows of the statement."
        if t.op != "call" or t.args[0] not in FETCH or not isinstance(t.args[1], T):
            return False
        recv, args = t.args[1], [x for _, x in t.args[2]]
        if t.args[0] == ".fetch":
            return args == [self.stmt]
        if args:
            return False
        if recv.op == "call" and recv.args[0] == ".execute":
            return bool(recv.args[2]) and recv.args[2][0][1] == self.stmt
        executed = [e for e in events(self.r) if e.op == "call" and e.args[0] == ".execute" and e.args[1] == recv]
        return bool(executed) and all(e.args[2] and e.args[2][0][1] == self.stmt for e in executed)

    def is_first(self, t: T) -> bool:
        return (t.op == "next" and len(t.args) == 1 or t.op == "sub" and is_const(t.args[1], 0)) and self.is_rows(t.args[0])

    def others(self, t: T) -> bool:
        "The rows after the first."
        return t.op == "rest" and self.is_rows(t.args[0]) or t.op == "slice" and self.is_rows(t.args[0]) and is_const(t.args[1], 1) and all(is_const(x, None) for x in t.args[2:])

    # -- check

    def check(self) -> None:
        self.ctx.check(not self.unordered, "rows", f"{self.label}: order", self.unordered[0] if self.unordered else self.f.loc(), "rows are gathered in a set, which has no order and keeps one of equal rows")
        refused = {k for k in KINDS if not any(self.truth_of(pc, k) is not False for _, pc in self.r.returns)}
        for kind in KINDS:
            key = f"{self.label}: {kind}"
            if kind == "other":
                ok = all(self.width_error(kind, w) for w in (1, 2))
                self.ctx.check(ok, "width", key, self.f.loc(), "a signature that is not understood is not refused")
                continue
            if kind in refused:
                # an explicit refusal
                self.ctx.notes.append(f"{self.label} refuses a signature of kind {kind}")
                self.ctx.check(kind == "dataclass", "rows", key, self.f.loc(), f"a query with a signature of kind {kind} is not answered")
                continue
            self.ctx.count("signatures")
            made = 0
            for v in self.reached(kind, False):
                if self.nothing(v):
                    self.ctx.bad("rows", f"{key}: none", v.loc or self.f.loc(), "no rows are returned where the query has rows")
                    continue
                made += 1
                self.result(kind, key, v)
            for v in self.reached(kind, True):
                # no element can be made of the first row
                ok = self.nothing(v) or self.is_rows(v) or v.op == "seq" and not any(i.op == "item" for i in v.args[1])
                self.ctx.check(ok, "rows", f"{key}: empty", v.loc or self.f.loc(), f"a query without rows has the result {show(v)[:90]}")
            self.ctx.check(made > 0, "rows", f"{key}: answered", self.f.loc(), f"a query with a signature of kind {kind} has no rows")
            self.widths(kind, key)

    def truth_of(self, pc: tuple[T, ...], kind: str, width: Optional[int] = None) -> Optional[bool]:
        xs = [self.truth(c, kind, width) for c in pc]
        return False if False in xs else None if None in xs else True

    def reached(self, kind: str, none: bool) -> list[T]:
        "Results for a kind of signature, with no rows, or with rows of the right number of columns."
        self.none = none
        try:
            return [v for v, pc in self.leaves() if self.truth_of(pc, kind, 2 if kind == "tuple" else 1) is not False]
        finally:
            self.none = False

    def leaves(self) -> Iterator[tuple[T, tuple[T, ...]]]:
        def go(v: T, pc: tuple[T, ...]) -> Iterator[tuple[T, tuple[T, ...]]]:
            if v.op == "phi":
                yield from go(v.args[1], pc + (v.args[0],))
                yield from go(v.args[2], pc + (neg(v.args[0]),))
            else:
                yield v, pc
        for v, pc in self.r.returns:
            yield from go(v, tuple(pc))

    def nothing(self, v: T) -> bool:
        return v.op == "seq" and not v.args[1] or v.op == "tup" and not v.args

    def widths(self, kind: str, key: str) -> None:
        for w in (1, 2, 3):
            self.ctx.count("widths")
            fails = self.width_error(kind, w)
            if kind == "dataclass":
                want = False
            else:
                want = w != (2 if kind == "tuple" else 1)
            self.ctx.check(fails == want, "width", f"{key}: {w}", self.f.loc(),
                           f"a result of {w} columns is {'refused' if fails else 'accepted'} for a signature of kind {kind}{' of 2 items' if kind == 'tuple' else ''}")

    def width_error(self, kind: str, w: int) -> bool:
        return any(self.truth_of(tuple(e.pc), kind, w) is True for e in events(self.r) if e.op == "raise")

    # -- the rows of a result

    def result(self, kind: str, key: str, v: T) -> None:
        loc = v.loc or self.f.loc()
        self.ctx.count("rows")
        if self.is_rows(v):
            if kind == "tuple":
                return
            ok = kind == "dataclass" and self.factory(v.args[1])
            self.ctx.check(ok, "element", key, loc, f"rows are returned as the driver made them for a signature of kind {kind}")
            return
        if v.op != "seq" or v.args[0] not in ("list", "tuple", "gen"):
            self.ctx.bad("rows", key, loc, f"the result is {show(v)[:90]}")
            return
        for items in expand(v.args[1], kind, self):
            ok = len(items) == 1 and items[0][0] == "for" and self.is_rows(items[0][1])
            ok = ok or len(items) == 2 and items[0][0] == "item" and items[1][0] == "for" and self.others(items[1][1])
            if not ok:
                self.ctx.bad("rows", key, loc, f"the result is not one element for every row: {show(v)[:120]}")
                continue
            for i in items:
                if i[0] == "item":
                    self.element(kind, key, loc, i[1], next((x for x in walk(i[1]) if self.is_first(x)), None))
                    continue
                for body in expand(i[3], kind, self):
                    if len(body) != 1 or body[0][0] != "item":
                        self.ctx.bad("rows", key, loc, f"a row does not make one element of the result: {show(v)[:120]}")
                        continue
                    self.element(kind, key, loc, body[0][1], i[2])

    def element(self, kind: str, key: str, loc: object, e: T, row: Optional[T]) -> None:
        ctx = self.ctx
        if row is None:
            ctx.bad("element", key, loc, f"an element is not made of a row: {show(e)[:90]}")
        elif kind == "dataclass":
            ctx.check(self.instance(e, row), "element", key, loc, f"the fields of an instance do not take the values of all columns of the same name: {show(e)[:120]}")
        elif kind == "tuple":
            ctx.check(e == row, "element", key, loc, f"an item of the result is {show(e)[:90]} instead of the row")
        else:
            ctx.check(e.op in ("sub", "proj") and e.args[0] == row and (is_const(e.args[1], 0) if e.op == "sub" else e.args[1] == 0), "element", key, loc, f"a value of the result is {show(e)[:90]} instead of the single column")

    def instance(self, e: T, row: T) -> bool:
        if not (e.op == "call" and e.args[0] == "()" and e.args[1] == self.sig or e.op == "newof" and e.args[0] == self.sig):
            return False
        args = e.args[2] if e.op == "call" else e.args[1]
        return len(args) == 1 and args[0][0] in ("**", None) and self.mapping(args[0][1], row)

    def mapping(self, m: T, row: T) -> bool:
        "Whether a mapping of names to values has every column of a row."
        if m == row:
            return True
        if m.op == "call" and m.args[0] == "dict" and len(m.args[2]) == 1:
            x = m.args[2][0][1]
            return x == row or self.pairs(x, row)
        if m.op == "seq" and m.args[0] == "dict" and len(m.args[1]) == 1 and m.args[1][0].op == "for" and len(m.args[1][0].args) == 3:
            src, bv, body = m.args[1][0].args
            if len(body) != 1 or body[0].op != "kv":
                return False
            k, v = body[0].args
            if src.op == "call" and src.args[0] == ".items" and self.mapping(src.args[1], row):
                return k == T("proj", (bv, 0)) and v == T("proj", (bv, 1))
            if self.pairs(src, row):
                return k == T("proj", (bv, 0)) and v == T("proj", (bv, 1))
            whole = src.args[1] if src.op == "call" and src.args[0] == ".keys" else src
            if v == T("sub", (whole, bv)):
                return k == bv and self.mapping(whole, row)
            name = bv if self.field_names(src) else T("attr", (bv, "name")) if self.fields(src) else None
            return k == name and self.attribute(v, row, name)
        return False

    def pairs(self, x: T, row: T) -> bool:
        "The names of all columns, each with the value of the column."
        if x.op == "call" and x.args[0] == ".items":
            return self.mapping(x.args[1], row)
        if x.op != "zip" and not (x.op == "call" and x.args[0] == "zip"):
            return False
        args = [a for _, a in x.args[2]] if x.op == "call" else list(x.args)
        args = list(args[0]) if len(args) == 1 and isinstance(args[0], tuple) else args
        return len(args) == 2 and args[1] == row and self.column_names(args[0])

    def column_names(self, x: T) -> bool:
        if x.op == "seq" and len(x.args[1]) == 1 and x.args[1][0].op == "for" and len(x.args[1][0].args) == 3:
            src, bv, body = x.args[1][0].args
            return src.op == "attr" and src.args[1] == "description" and len(body) == 1 and body[0].op == "item" \
                and body[0].args[0] in (T("sub", (bv, T("const", (0,)))), T("proj", (bv, 0)), T("attr", (bv, "name")))
        return False

    def field_names(self, x: T) -> bool:
        if x.op == "call" and x.args[0] == ".keys":
            x = x.args[1]
        return x.op == "attr" and x.args[0] == self.sig and x.args[1] == "__dataclass_fields__"

    def fields(self, x: T) -> bool:
        return x.op == "call" and str(x.args[0]).split(".")[-1] in ("fields", "dataclass_fields") and len(x.args[2]) == 1 and x.args[2][0][1] == self.sig \
            or x.op == "call" and x.args[0] == ".values" and self.field_names(x.args[1])

    def attribute(self, v: T, row: T, name: Optional[T]) -> bool:
        if v.op == "sub":
            return v.args == (row, name)
        if v.op != "call":
            return False
        if v.args[0] == ".__getattribute__":
            return v.args[1] == row and [x for _, x in v.args[2]] == [name]
        return v.args[0] == "getattr" and [x for _, x in v.args[2]] == [row, name]

    def factory(self, cursor: T) -> bool:
        "Whether the cursor makes an instance of the signature of each row."
        sets = [e for e in events(self.r) if e.op == "setattr" and e.args[0] == cursor and e.args[1] == "rowfactory"]
        if len(sets) != 1 or self.truth_of(tuple(sets[0].pc), "dataclass") is not True:
            return False
        order = [e for e in events(self.r) if e is sets[0] or e.op == "call" and e.args[0] in (".execute", ".fetchall") and e.args[1] == cursor and self.truth_of(tuple(e.pc), "dataclass") is not False]
        if [e.args[0] for e in order if e.op == "call"] != [".execute", ".fetchall"] or order[1] is not sets[0]:
            return False
        v = sets[0].args[2]
        if v == self.sig:
            return True
        if v.op not in ("closure", "func") or not isinstance(v.args[0], FuncInfo):
            return False
        g = v.args[0]
        if g.args.vararg is None or g.args.args or g.args.kwonlyargs:
            return False
        r = self.ctx.interp(lambda h, x: private(h)).run(g, None, closure=closure_env(v) if v.op == "closure" else None)
        star = [T("star", (T("param", (g.args.vararg.arg,)),)), T("param", (g.args.vararg.arg,))]
        e = r.value
        if e is None or not (e.op == "call" and e.args[0] == "()" and e.args[1] == self.sig or e.op == "newof" and e.args[0] == self.sig):
            return False
        args = e.args[2] if e.op == "call" else e.args[1]
        return len(args) == 1 and args[0][1] in star


def expand(items: tuple, kind: str, q: Query) -> list[list[tuple]]:
    "Alternatives of the items of a list."
    out: list[list[tuple]] = [[]]
    for i in items:
        if i.op == "item":
            more = [[("item", i.args[0])]]
        elif i.op == "for" and len(i.args) == 3:
            more = [[("for", i.args[0], i.args[1], i.args[2])]]
        elif i.op == "if":
            c = q.truth(i.args[0], kind, None)
            more = (expand(i.args[1], kind, q) if c is not False else []) + (expand(i.args[2], kind, q) if c is not True else [])
        elif i.op == "splice":
            more = [[("for", i.args[0], T("bv", ("row",)), (T("item", (T("bv", ("row",)),)),))]]
        else:
            more = [[("?", i)]]
        out = [a + b for a in out for b in more]
    return out
