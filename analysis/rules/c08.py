"""
Structural analysis of generated row statements. Each generator's insert, merge and upsert operation (as seen by each dialect, with its
helpers and placeholder evaluated in place) is evaluated into the text of the statement with holes and repetitions, one variant per
combination of conditions. Each variant must parse as one of the known statement forms; in it, the column list and the placeholder list
must iterate over the same collection under the same conditions, that collection must be the table's columns in the caller's order,
numbered placeholders must carry the 1-based position in that same collection, and every assignment in an update clause must be made from the
new value of the same column, under conditions that exclude keys and identity columns. The operations of tables that select columns
(in order, by primary key, by identity) are evaluated against their definitions.
"""

import re

from ..common import conj_parts, hierarchy, implied, method_name
from ..framework import Ctx, events
from ..program import AnalysisError, ClassInfo, FuncInfo
from ..sqltext import Hole, Rep, Variant, _elements, variants
from ..terms import T, rewrite, show, walk
from .c05 import dialect_of, generators

ASSUMPTIONS = [
    "a placeholder list binds the values of a record in order (driver parameter style)",
    "the MySQL form 'key = key' (or its own VALUES) on the primary key is the identity assignment that stands for 'do nothing'",
]
OPS = ("get_table_insert_stmt", "get_table_merge_stmt", "get_table_upsert_stmt")
OPAQUE = frozenset("get_columns is_lookup_column is_primary_column is_unique_column get_primary_column quote local_id quoted_id __str__ check_primary".split())
BV = T("bv", ("col",))


def inline(g: FuncInfo, recv) -> bool:
    if g.name in OPAQUE or g.name.startswith("__"):
        return False
    if g.cls is None:
        return g.module.name.endswith(".generator") or g.module.name.endswith("pysqlsync.base") or g.name in ("join", "join_or_none")
    return g.cls.is_subclass_of("BaseGenerator") and not g.name.startswith("get_current") or g.cls.is_subclass_of("Table")


class Shape:
    "What a repetition iterates over: source, conditions (canonical), element."

    def __init__(self, src, conds: frozenset, elem, problem: str = "") -> None:
        self.src, self.conds, self.elem, self.problem = src, conds, elem, problem

    def same(self, o: "Shape") -> bool:
        return not self.problem and not o.problem and self.src == o.src and self.conds == o.conds


def trim(t: T) -> T:
    while t.op in ("copy", "listof", "tupleof") and t.args and isinstance(t.args[0], T):
        t = t.args[0]
    if t.op == "seq" and len(t.args[1]) == 1:
        i = t.args[1][0]
        if i.op == "splice" or i.op == "for" and i.args[2] == (T("item", (i.args[1],)),):
            return trim(i.args[0])
    return t


def canon_conds(conds, sub) -> frozenset:
    out = set()
    for c in conds:
        for x in conj_parts(c):
            for a, pol in implied([subst(x, sub)]):
                out.add((a, pol))
    return frozenset(out)


def shape(rep: Rep) -> Shape:
    loops = rep.loops
    if len(loops) != 1:
        return Shape(None, frozenset(), rep.elem, f"{len(loops)} nested loops")
    src, bv = loops[0]
    src, sub, conds = source(src, bv)
    elem = [p if isinstance(p, str) else Hole(subst(p.term, sub)) if isinstance(p, Hole) else p for p in rep.elem]
    return Shape(src, canon_conds(rep.conds, sub) | conds, elem)


def source(src: T, bv: T):
    "Looks through enumerations of positions; the loop variable stands for the element."
    src = trim(src)
    conds: frozenset = frozenset()
    sub = {bv: BV}
    while src.op == "seq":
        paths = list(_elements(src.args[1][0], ())) if len(src.args[1]) == 1 else []
        if len(paths) != 1 or len(paths[0][1]) != 1 or not isinstance(paths[0][1][0], Hole):
            break
        path, (h,) = paths[0]
        each = [p for p in path if p.op == "each"]
        if len(each) != 1 or h.term != each[0].args[1]:
            break
        inner = each[0].args[1]
        conds = conds | canon_conds([p for p in path if p.op != "each"], {inner: BV})
        src = trim(each[0].args[0])
    return src, sub, conds


def seq_shape(t: T) -> Shape:
    bv = T("bv", ("x",))
    src, _, conds = source(t, bv)
    return Shape(src, conds, [])


def elem_is(sh: Shape, *pattern) -> bool:
    "Element is the given text with holes equal to the given terms."
    got: list = []
    for p in sh.elem:
        if isinstance(p, str):
            got += [x for x in re.split(r"(\s+)", p) if x.strip()]
        elif isinstance(p, Hole):
            got.append(p.term)
        else:
            return False
    flat: list = []
    for p in got:
        if isinstance(p, str) and flat and isinstance(flat[-1], str):
            flat[-1] += " " + p
        else:
            flat.append(p)
    want: list = list(pattern)
    return len(flat) == len(want) and all((a == b) if isinstance(a, T) or isinstance(b, T) else re.fullmatch(b, a.strip()) for a, b in zip(flat, want))


NAME = T("attr", (BV, "name"))


def in_key(c: tuple, table: T) -> bool:
    a, pol = c
    return not pol and a.op == "in" and a.args[0] == NAME and a.args[1] == T("attr", (table, "primary_key"))


def not_lookup(c: tuple, table: T) -> bool:
    a, pol = c
    return not pol and a.op == "call" and method_name(a) in ("is_lookup_column", "is_primary_column") and any(v in (BV, NAME) for _, v in a.args[2] if isinstance(v, T)) and a.args[1] == table


def not_identity(c: tuple) -> bool:
    a, pol = c
    return not pol and a == T("attr", (BV, "identity"))


def subst(t: T, m: dict) -> T:
    return rewrite(t, lambda x: m.get(x))


R = "«(\\d+)»"
H = "⟨(\\d+)⟩"
INSERT = re.compile(rf"INSERT INTO {H} ?\( ?{R} ?\) ?VALUES ?\( ?{R} ?\)(.*)", re.S)
MERGE = re.compile(rf"MERGE INTO {H} (?:AS )?(\w+) USING \( ?VALUES ?\( ?{R} ?\) ?\) (?:AS )?(\w+) ?\( ?{R} ?\)(?: ON \( ?{R} ?\))?(?: WHEN MATCHED THEN UPDATE SET {R})?(?: WHEN NOT MATCHED THEN INSERT ?\( ?{R} ?\) ?VALUES ?\( ?{R} ?\))? ?;?", re.S)
CONFLICT = re.compile(rf"ON CONFLICT(?: \( ?{R} ?\))? DO (?:NOTHING|UPDATE SET {R}) ?;?", re.S)
DUPLICATE = re.compile(rf"(?:AS (\w+) )?ON DUPLICATE KEY UPDATE {R} ?;?", re.S)


def check(ctx: Ctx) -> None:
    prog = ctx.prog
    for d, c, _ in generators(ctx):
        p = c.find_method("placeholder")
        pr = ctx.run(p, c)
        if pr.raises and pr.value.op in ("const", "bottom") and not pr.returns:
            ctx.notes.append(f"{d}: no placeholder style (generating statements with parameters raises an error)")
            continue
        for op in OPS:
            statement(ctx, d, c, c.find_method(op), op)
    tables(ctx)
    ctx.minimum("statements", 21)
    ctx.minimum("statement variants", 30)


def statement(ctx: Ctx, d: str, c: ClassInfo, f: FuncInfo, op: str) -> None:
    r = ctx.run(f, c, inline=inline)
    names = [a.arg for a in f.args.posonlyargs + f.args.args][1:]
    if len(names) < 2:
        raise AnalysisError(f"{f.short} has no parameters for table and order")
    table, order = T("param", (names[0],)), T("param", (names[1],))
    ctx.count("statements")
    who = f"{c.short}.{op}"
    vs = variants(r.value)
    if not vs:
        ctx.bad("statement-form", who, f.loc(), "no statement")
    for v in vs:
        ctx.count("statement variants")
        text = re.sub(r"\s+", " ", v.text()).strip()
        verdict(ctx, d, op, who, f, v, text, table, order)


def verdict(ctx: Ctx, d: str, op: str, who: str, f: FuncInfo, v: Variant, text: str, table: T, order: T) -> None:
    loc = f.loc()

    def rep(i) -> Shape:
        p = v.part(i)
        sh = shape(p)
        if p.sep.strip() not in (",", "OR", "AND"):
            sh.problem = f"joined with {p.sep!r}"
        return sh

    def ok_base(sh: Shape) -> bool:
        s = sh.src
        return s is not None and s.op == "call" and str(s.args[0]).endswith("Table.get_columns") and s.args[1] == table and tuple(x for _, x in s.args[2]) == (order,)

    def chk(cond: bool, rule: str, msg: str) -> bool:
        return ctx.check(cond, rule, f"{who}: {rule}", loc, msg)

    def lists(names: Shape, values: Shape) -> None:
        chk(ok_base(names), "columns-supplied-by-caller", f"the column list iterates over {show(names.src)[:80] if names.src is not None else names.problem}, not over the table's columns in the order given by the caller")
        chk(names.same(values), "placeholders-match-columns", f"columns: {describe(names)}; placeholders: {describe(values)}")
        chk(elem_is(names, NAME), "column-list-of-names", "the column list is not made of column names")
        chk(placeholder(values), "placeholder-form", f"the placeholder is {values.elem}, or its number is not the 1-based position in the same list")

    def placeholder(sh: Shape) -> bool:
        es = sh.elem
        if all(isinstance(e, str) for e in es):
            return "".join(es) in ("?", "%s")
        if len(es) == 2 and es[0] in ("$", ":") and isinstance(es[1], Hole) and es[1].term.op == "pos":
            seq, start = es[1].term.args
            s = seq_shape(seq)
            return s.src == sh.src and s.conds == sh.conds and (start == 1 or isinstance(start, T) and start.op == "const" and start.args[0] == 1)
        return False

    def updates(sh: Shape, inserted: Shape, *pattern) -> None:
        chk(ok_base(sh), "updates-supplied-columns", f"the update clause iterates over {show(sh.src)[:80] if sh.src is not None else sh.problem}, not over the columns supplied by the caller")
        chk(inserted.conds <= sh.conds, "updates-listed-columns", f"updates columns that are not listed: {describe(sh)}")
        chk(elem_is(sh, *pattern), "update-from-same-column", f"assignment is {sh.elem}")
        chk(any(not_identity(c) for c in sh.conds), "update-excludes-identity", f"updates identity columns: {describe(sh)}")
        chk(any(in_key(c, table) or not_lookup(c, table) for c in sh.conds), "update-excludes-keys", f"updates key columns: {describe(sh)}")

    m = MERGE.fullmatch(text)
    if m:
        tbl, target, vals, source_, cols, on, upd, icols, ivals = m.groups()
        chk(v.part(tbl).term == T("attr", (table, "name")), "statement-table", "the statement is not for the table passed")
        names, values = rep(cols), rep(vals)
        lists(names, values)
        if on:
            sh = rep(on)
            chk(ok_base(sh) and names.conds <= sh.conds, "match-on-supplied-columns", f"match condition on {describe(sh)}")
            chk(elem_is(sh, re.escape(target) + r"\.", NAME, r"= " + re.escape(source_) + r"\.", NAME), "match-same-column", f"match condition is {sh.elem}")
        if upd:
            chk(op == "get_table_upsert_stmt", "merge-ignores-existing", "a statement to insert or ignore records updates them")
            updates(rep(upd), names, re.escape(target) + r"\.", NAME, r"= " + re.escape(source_) + r"\.", NAME)
        if icols:
            a, b = rep(icols), rep(ivals)
            chk(ok_base(a) and names.conds <= a.conds, "insert-supplied-columns", f"inserts {describe(a)}")
            chk(a.same(b), "insert-lists-match", f"columns: {describe(a)}; values: {describe(b)}")
            chk(elem_is(a, NAME) and elem_is(b, re.escape(source_) + r"\.", NAME), "insert-same-column", f"columns {a.elem}, values {b.elem}")
            chk(any(not_identity(x) for x in a.conds), "insert-omits-identity", f"supplies values for identity columns: {describe(a)}")
            extra = [x for x in a.conds - names.conds if not not_identity(x)]
            chk(not extra, "insert-all-supplied", f"drops columns on {extra}")
        return
    m = INSERT.fullmatch(text)
    if not m:
        ctx.bad("statement-form", who, loc, f"not a known form of statement: {text[:160]}")
        return
    tbl, cols, vals, rest = m.groups()
    chk(v.part(tbl).term == T("attr", (table, "name")), "statement-table", "the statement is not for the table passed")
    names, values = rep(cols), rep(vals)
    lists(names, values)
    if op != "get_table_upsert_stmt":
        chk(any(not_identity(x) for x in names.conds), "insert-omits-identity", f"supplies values for identity columns: {describe(names)}")
    extra = [x for x in names.conds if not not_identity(x)]
    chk(not extra, "insert-all-supplied", f"drops columns on {extra}")
    rest = rest.strip()
    if rest in (";", ""):
        chk(op == "get_table_insert_stmt", "conflict-clause", "a statement to merge or upsert records has no clause for existing records")
        return
    chk(op != "get_table_insert_stmt", "conflict-clause", "a statement to insert records has a clause for existing records")
    m = CONFLICT.fullmatch(rest)
    if m:
        keys, upd = m.groups()
        if keys:
            k = rep(keys)
            chk(k.src == T("attr", (table, "primary_key")) and elem_is(k, BV), "conflict-target", f"conflict target is {describe(k)}")
        if upd:
            chk(bool(keys) and op == "get_table_upsert_stmt", "merge-ignores-existing", "a statement to insert or ignore records updates them")
            updates(rep(upd), names, NAME, r"= EXCLUDED\.", NAME)
        elif op == "get_table_upsert_stmt":
            nothing_to_update(ctx, v, who, loc, table, order)
        return
    m = DUPLICATE.fullmatch(rest)
    if m:
        alias, upd = m.groups()
        sh = rep(upd)
        new = (r"= " + re.escape(alias) + r"\.",) if alias else (r"= VALUES\(",)
        end = () if alias else (r"\)",)
        if sh.src == T("attr", (table, "primary_key")):
            chk(elem_is(sh, BV, "=", BV) or elem_is(sh, BV, *new, BV, *end), "update-from-same-column", f"assignment is {sh.elem}")
            if op == "get_table_upsert_stmt":
                nothing_to_update(ctx, v, who, loc, table, order)
        else:
            chk(op == "get_table_upsert_stmt", "merge-ignores-existing", "a statement to insert or ignore records updates them")
            updates(sh, names, NAME, *new, NAME, *end)
        return
    ctx.bad("statement-form", who, loc, f"not a known form of clause: {rest[:160]}")


def nothing_to_update(ctx: Ctx, v: Variant, who: str, loc: str, table: T, order: T) -> None:
    "A variant without an update clause is only for tables with no other column to update."
    good = False
    for c in v.pc:
        for a, pol in implied([c]):
            if not pol:
                s = seq_shape(a)
                if s.src is not None and s.src.op == "call" and str(s.src.args[0]).endswith("Table.get_columns") and all(not_identity(x) or in_key(x, table) or not_lookup(x, table) for x in s.conds):
                    good = True
    ctx.check(good, "upsert-updates", f"{who}: upsert-updates", loc, "existing records are left as they are although there are columns to update")


def describe(sh: Shape) -> str:
    if sh.problem or sh.src is None:
        return sh.problem
    return show(sh.src)[:60] + " if " + ", ".join(sorted(("" if p else "not ") + show(a)[:60] for a, p in sh.conds)) if sh.conds else show(sh.src)[:60]


def tables(ctx: Ctx) -> None:
    prog = ctx.prog
    base = prog.find_class("Table")
    for c in [base] + base.all_subclasses():
        f = c.find_method("get_columns")
        if f is None:
            raise AnalysisError("no Table.get_columns")
        r = ctx.run(f, c)
        fields = T("param", ([a.arg for a in f.args.args][1],))
        cols = T("attr", (T("param", ("self",)), "columns"))
        none = T("isnone", (fields,))
        n = 0
        for value, pc in r.returns:
            facts = implied(pc)
            v = trim(value)
            if (none, True) in facts:
                n += 1
                ctx.check(v.op == "call" and method_name(v) == "values" and v.args[1] == cols or v == cols, "all-columns-by-default", c.short, f.loc(), f"all columns are {show(v)[:80]}")
            elif (none, False) in facts:
                n += 1
                good = False
                if v.op == "seq" and len(v.args[1]) == 1:
                    els = list(_elements(v.args[1][0], ()))
                    if len(els) == 1 and len(els[0][1]) == 1 and isinstance(els[0][1][0], Hole):
                        path, (h,) = els[0]
                        each = [p for p in path if p.op == "each"]
                        conds = [p for p in path if p.op != "each"]
                        if len(each) == 1 and trim(each[0].args[0]) == fields and not conds:
                            bv = each[0].args[1]
                            good = any(x == cols for x in walk(h.term)) and any(x == bv for x in walk(h.term)) and h.term.op in ("call", "index", "getitem", "subscript")
                ctx.check(good, "columns-in-given-order", c.short, f.loc(), f"the columns for given names are {show(v)[:120]}")
            else:
                ctx.bad("columns-in-given-order", c.short, f.loc(), f"whether names are given does not decide the result {show(v)[:80]}")
        ctx.check(n >= 2, "columns-in-given-order", f"{c.short}: both cases", f.loc(), "the cases with and without names are not distinguished")
        ctx.count("column selections")
        # value columns
        f = c.find_method("get_value_columns")
        r = ctx.run(f, c)
        fields = T("param", ([a.arg for a in f.args.args][1],))
        v = trim(r.value)
        s = seq_shape(v)
        self = T("param", ("self",))
        ok = s.src is not None and s.src.op == "call" and str(s.src.args[0]).endswith("Table.get_columns") and s.src.args[1] == self and tuple(x for _, x in s.src.args[2]) == (fields,)
        ctx.check(ok, "value-columns-forward-order", c.short, f.loc(), f"the value columns are taken from {show(s.src)[:80]}")
        ctx.check(len(s.conds) == 2 and any(not_identity(x) for x in s.conds) and any(in_key(x, self) or not_lookup(x, self) for x in s.conds), "value-columns-exclude-keys", c.short, f.loc(), f"the value columns are {describe(s)}")
        # lookup columns include the primary key
        f = c.find_method("is_lookup_column")
        r = ctx.run(f, c, inline=lambda g, recv: g.name in ("is_primary_column",))
        col = T("param", ([a.arg for a in f.args.args][1],))
        inkey = T("in", (T("attr", (col, "name")), T("attr", (self, "primary_key"))))
        good = all(v.op == "or" and inkey in v.args or v == inkey or v.op == "const" and v.args[0] is True or (inkey, False) in implied(pc) or v.op == "phi" and v.args[0] == inkey and v.args[1].op == "const" and v.args[1].args[0] is True for v, pc in r.returns)
        ctx.check(good, "lookup-columns-include-key", c.short, f.loc(), f"lookup columns are {show(r.value)[:120]}")
    # rows of enumeration tables
    et = prog.find_class("EnumTable")
    f = et.find_method("create_stmt")
    r = ctx.run(f, et)
    vs = variants(r.value)
    for v in vs:
        text = re.sub(r"\s+", " ", v.text())
        m = re.search(rf"INSERT INTO {H} \( ?{R} ?\) VALUES ", text)
        ctx.check(bool(m), "enum-values-inserted", et.short, f.loc(), f"the values of the enumeration are not inserted: {text[:120]}")
        if m:
            sh = shape(v.part(m.group(2)))
            self = T("param", ("self",))
            ok = sh.src is not None and sh.src.op == "call" and method_name(sh.src) == "get_value_columns" and sh.src.args[1] == self and not sh.conds and elem_is(sh, NAME)
            ctx.check(ok, "enum-values-columns", et.short, f.loc(), f"column list is {describe(sh)}")
            rows = [p for p in v.parts if isinstance(p, Rep) and p is not v.part(m.group(2))]
            ctx.check(bool(rows) and all(p.loops and trim(p.loops[0][0]) == T("attr", (self, "values")) and len(p.loops) == 1 for p in rows), "enum-values-complete", et.short, f.loc(), "the rows are not one for each value of the enumeration")
    ctx.minimum("column selections", 2)
