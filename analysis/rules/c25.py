"""
Decides that enumeration values are registered in their lookup table before they are translated.

Each record transformer that touches the database while it prepares a batch is evaluated over all paths:

* `merged`: the statement executed is the merge statement of the lookup table, and its records are exactly the values of the batch at
  the transformer's own position (each element, for a list-valued column), none selected away, except that null is left out.
* `order`: on every path that translates values, the merge is executed first and the whole lookup table read back afterwards, both
  awaited; neither depends on any condition other than that there are values.
* `dictionary`: the translation is made of what was read back (value column to key column, no row filtered); an empty dictionary is
  used only if there are no values.
* `translate`: the function made by the generator maps each value (each element) to its key in that dictionary, in order, and lets
  null through in a list; for scalars, the data source does so (see C09).
* `choice`: a column that refers to a lookup table gets the scalar transformer for text and the list transformer for lists and sets,
  made for the referenced table and the position of the field in the source record.
* `applied`: a data source asks each transformer for its function with the complete batch as read, on every iteration.
"""

from __future__ import annotations

import ast
from typing import Iterator, Optional

from ..common import hierarchy, implied, method_name, paths, relevant, value_under
from ..framework import Ctx, events
from ..program import ClassInfo, FuncInfo, dotted, walk_own
from ..sqltext import Hole, variants
from ..terms import closure_env, FALSE, T, const, neg, show, subst, walk
from .c10 import one_to_one

ASSUMPTIONS = [
    "the merge statement inserts the values that are missing and leaves others alone (see C08)",
    "the lookup table is not changed by others between merge and read",
]

OPAQUE = {"execute_all", "execute", "query_all", "query_one", "get_enum_transformer", "get_enum_list_transformer", "get_table_merge_stmt", "get_value_columns",
          "get_primary_column", "get_table_insert_stmt", "get_table_upsert_stmt"}


def transformers(ctx: Ctx) -> list[ClassInfo]:
    base = ctx.prog.find_class("RecordTransformer")
    out = []
    for c in base.all_subclasses():
        f = c.find_method("get")
        if f is None or f.is_abstract:
            continue
        names = {n.attr for k in c.project_mro() for m in k.methods.values() for n in ast.walk(m.node) if isinstance(n, ast.Attribute)}
        if names & {"execute_all", "query_all", "get_enum_transformer", "get_enum_list_transformer"}:
            if any("get" in k.methods for k in c.project_mro() if not k.methods.get("get", f).is_abstract):
                out.append(c)
    return out


def inline(c: ClassInfo):
    def policy(g: FuncInfo, recv: Optional[T]) -> bool:
        if g.name in OPAQUE:
            return False
        if g.cls is not None:
            return g.cls in c.project_mro() or any(g.cls is k for k in ()) or g.name.startswith("_") and g.cls.name == "BaseContext"
        return g.module is c.module or g.parent is not None

    return policy


def leaves(items: tuple, loops: tuple = (), conds: tuple = (), strip=None) -> Iterator[tuple[tuple, tuple, T]]:
    "The elements of a collection: the loops they arise in, the conditions, and the value."
    strip = strip or regardless
    for i in items:
        if i.op == "item":
            yield loops, conds, i.args[0]
        elif i.op == "kv":
            yield loops, conds, T("kv", i.args)
        elif i.op == "for":
            src = i.args[0]
            if strip(src).op == "seq":
                # a loop over a collection built in the same function
                for l, c, v in leaves(strip(src).args[1], loops, conds, strip):
                    yield from leaves(tuple(subst(x, i.args[1], v) for x in i.args[2]), l + ((("break",),) if len(i.args) > 3 else ()), c, strip)
            else:
                yield from leaves(i.args[2], loops + ((strip(src), i.args[1]),) + ((("break",),) if len(i.args) > 3 else ()), conds, strip)
        elif i.op == "if":
            yield from leaves(i.args[1], loops, conds + (i.args[0],), strip)
            yield from leaves(i.args[2], loops, conds + (neg(i.args[0]),), strip)
        elif i.op == "splice":
            s = strip(i.args[0])
            if s.op == "seq":
                yield from leaves(s.args[1], loops, conds, strip)
            elif s.op == "phi":
                yield from leaves((T("splice", (s.args[1],)),), loops, conds + (s.args[0],), strip)
                yield from leaves((T("splice", (s.args[2],)),), loops, conds + (neg(s.args[0]),), strip)
            else:
                bv = T("bv", ("splice",) + (id(i),))
                yield loops + ((s, bv),), conds, bv
        elif i.op == "discard":
            yield loops, conds, T("discard", i.args)


def strip(t: T) -> T:
    while t.op in ("sorted", "listof", "tupleof", "setof", "copy", "iter", "reversed") and isinstance(t.args[0], T):
        t = t.args[0]
    return t


regardless = strip


def collection(t: T) -> list[tuple[tuple, tuple, T]]:
    return list(leaves((T("splice", (t,)),)))


def one_field(t: T) -> Optional[T]:
    "The value of a record with a single field."
    if t.op == "tup" and len(t.args) == 1:
        return t.args[0]
    if t.op == "seq" and t.args[0] in ("list", "tuple") and len(t.args[1]) == 1 and t.args[1][0].op == "item":
        return t.args[1][0].args[0]
    return None


def check(ctx: Ctx) -> None:
    prog = ctx.prog
    kinds: dict[str, str] = {}
    for c in transformers(ctx):
        ctx.count("lookup transformers")
        kind = transformer(ctx, c)
        if kind:
            kinds[c.name] = kind
    ctx.minimum("lookup transformers", 2)
    ctx.check("scalar" in kinds.values() and "list" in kinds.values(), "choice", "kinds of transformers", prog.find_class("RecordTransformer").methods["get"].loc(), f"there is no transformer for scalar or for list values: {kinds}")
    for c in hierarchy(prog, "BaseGenerator"):
        for name, kind in (("get_enum_transformer", "scalar"), ("get_enum_list_transformer", "list")):
            f = c.methods.get(name)
            if f is not None:
                translate(ctx, c, f, kind)
    ctx.minimum("translations", 2)
    for c in hierarchy(prog, "BaseContext"):
        if "_get_transformer" in c.methods:
            choice(ctx, c, c.methods["_get_transformer"], kinds)
        if "_generate_records" in c.methods:
            position(ctx, c, c.methods["_generate_records"])
    ctx.minimum("choices", 2)
    for c in prog.find_class("DataSource").all_subclasses():
        f = c.methods.get("batches")
        if f is not None and any(isinstance(n, ast.Attribute) and n.attr == "transformers" for n in ast.walk(c.node)):
            applied(ctx, c, f)
    ctx.minimum("transforming data sources", 2)


def transformer(ctx: Ctx, c: ClassInfo) -> Optional[str]:
    f = c.find_method("get")
    r = ctx.run(f, c, inline=inline(c))
    loc = f.loc()
    name = f"{c.name}.get"
    records = T("param", (f.args.args[1].arg if len(f.args.args) > 1 else "records",))
    position = T("attr", (T("param", ("self",)), "index"))
    made = [e for e in events(r) if e.op == "call" and method_name(e) in ("get_enum_transformer", "get_enum_list_transformer")]
    kinds = {"list" if method_name(e) == "get_enum_list_transformer" else "scalar" for e in made}
    ctx.check(len(kinds) == 1, "translate", f"{name}: kind", loc, "no translation, or different translations, are made on different paths")
    if len(kinds) != 1:
        return None
    kind = kinds.pop()

    # what is merged
    merges = [e for e in events(r) if e.op == "call" and method_name(e) in ("execute_all", "execute", "insert_rows", "upsert_rows", "insert_data", "upsert_data")]
    queries = [e for e in events(r) if e.op == "call" and method_name(e) in ("query_all", "query_one")]
    ctx.check(len(merges) >= 1, "merged", f"{name}: merge", loc, "values are not merged into the lookup table")
    ctx.check(len(queries) >= 1, "order", f"{name}: read", loc, "the lookup table is not read back")
    table = T("attr", (T("param", ("self",)), "table"))
    values: list[T] = []
    for e in merges:
        a = dict(e.args[2])
        s = a.get("statement")
        ok = isinstance(s, T) and s.op == "call" and method_name(s) == "get_table_merge_stmt" and dict(s.args[2]).get("table") == table
        ctx.check(ok, "merged", f"{name}: statement", e.loc or loc, f"the statement is not the merge statement of the lookup table: {show(s)[:120] if isinstance(s, T) else None}")
        rec = a.get("records")
        if not isinstance(rec, T):
            continue
        values.append(rec)
        ctx.count("merged collections")
        ls = collection(rec)
        ctx.check(len(ls) >= 1, "merged", f"{name}: values", e.loc or loc, "no value is merged")
        for loops, conds, v in ls:
            elem = one_field(v)
            want = 2 if kind == "list" else 1
            good = elem is not None and len(loops) == want and all(len(l) == 2 for l in loops)
            ctx.check(good and loops[0][0] == records, "merged", f"{name}: all records of the batch", e.loc or loc, f"the values merged are not those of all records: {show(v)[:60]} for {[show(l[0])[:60] for l in loops if len(l) == 2]}")
            if not good:
                continue
            field = T("sub", (loops[0][1], position))
            if kind == "list":
                ctx.check(strip_empty(loops[1][0]) == field, "merged", f"{name}: position", e.loc or loc, f"the values are not those at the position of the field: {show(loops[1][0])[:80]}")
                ctx.check(elem == loops[1][1], "merged", f"{name}: value", e.loc or loc, f"something other than the element is merged: {show(elem)[:80]}")
            else:
                ctx.check(elem == field, "merged", f"{name}: position", e.loc or loc, f"the value is not the one at the position of the field: {show(elem)[:80]}")
            lits = set()
            for x in conds:
                lits |= implied((x,))
            null = T("isnone", (elem,))
            ctx.check((null, False) in lits, "merged", f"{name}: null", e.loc or loc, "null is inserted in the lookup table")
            guarded = {(null, False)}
            if kind == "list":
                guarded |= {(T("isnone", (field,)), False), (field, True)}
                ctx.check(bool(lits & {(T("isnone", (field,)), False), (field, True)}) or loops[1][0] != field, "merged", f"{name}: null list", e.loc or loc, "a row whose list is null breaks loading: None is iterated")
            extra = [l for l in lits if l not in guarded]
            ctx.check(not extra, "merged", f"{name}: no other condition", e.loc or loc, f"a value is merged only if {[('' if p else 'not ') + show(l)[:80] for l, p in extra]}")

    def has_values(l: T, pos: bool) -> bool:
        "The condition says that there are values to merge."
        l = strip(l)
        if l.op == "len" and isinstance(l.args[0], T):
            l = strip(l.args[0])
        if not (l.op == "seq" and pos):
            return False
        return shape(l) in {shape(v) for v in values}

    def no_values(pc: tuple) -> bool:
        return any(has_values(l, not p) for l, p in implied(pc))

    for e in merges + queries:
        extra = [(l, p) for l, p in implied(e.pc) if not has_values(l, p)]
        what = "merged" if e in merges else "order"
        ctx.check(not extra, what, f"{name}: {method_name(e)}: always", e.loc or loc, f"executed only if {[('' if p else 'not ') + show(l)[:80] for l, p in extra]}")

    # order
    keep = lambda x: x.op == "call" and method_name(x) in ("execute_all", "query_all", "get_enum_transformer", "get_enum_list_transformer")
    for o in r.outcomes:
        if o.kind not in ("fall", "return"):
            continue
        for seq in paths(relevant(o.state.heap[0].args[1], keep)):
            names = [method_name(e) for e, _ in seq]
            ctx.count("paths")
            if "query_all" in names and "execute_all" in names:
                ctx.check(names.index("execute_all") < names.index("query_all"), "order", f"{name}: merge before read", seq[names.index("query_all")][0].loc or loc, "the lookup table is read before the values are merged into it")
                ctx.check(len(names) - 1 - names[::-1].index("execute_all") < len(names) - 1 - names[::-1].index("query_all"), "order", f"{name}: read last", loc, "values are merged after the lookup table was read")
            elif "query_all" in names:
                ctx.bad("order", f"{name}: merge before read", loc, "on some path the lookup table is read but nothing is merged")
            elif "execute_all" in names:
                ctx.bad("order", f"{name}: read after merge", loc, "on some path values are merged but the lookup table is not read back")

    # awaited in place
    for k in c.project_mro():
        for g in k.methods.values():
            if g.qualname not in {x for x in ()} and g.name in ("__init__",):
                continue
            for n in walk_own(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("execute_all", "query_all"):
                    awaited = any(isinstance(p, ast.Await) and p.value is n for p in walk_own(g.node))
                    ctx.check(awaited, "order", f"{g.short}: {n.func.attr} awaited", g.loc(n), "not awaited in place: it may not have completed when values are translated")

    # dictionary
    for e in made:
        d = dict(e.args[2]).get("enum_dict")
        for pc, v in alternatives(d, tuple(e.pc)):
            v = strip(v)
            if v.op == "seq" and v.args[0] == "dict" and not v.args[1]:
                ctx.check(no_values(pc), "dictionary", f"{name}: empty", e.loc or loc, "an empty dictionary is used although there are values to translate")
                continue
            q, swap = rows(v)
            ctx.check(q is not None, "dictionary", f"{name}: read back", e.loc or loc, f"values are not translated with what was read from the lookup table: {show(v)[:120]}")
            if q is not None:
                query(ctx, name, q, table, swap)
    for v, pc in r.returns:
        for pc2, x in alternatives(v, pc):
            if x.op == "const" and x.args[0] is None:
                ctx.check(no_values(pc2), "translate", f"{name}: no translation", loc, "values are not translated on some path")
            else:
                ok = x.op == "call" and method_name(x) in ("get_enum_transformer", "get_enum_list_transformer")
                ctx.check(ok, "translate", f"{name}: result", loc, f"the function returned is not the translation: {show(x)[:100]}")
    return kind


def strip_empty(t: T) -> T:
    "`x or []` iterates what x has."
    if t.op == "phi" and t.args[2].op in ("seq", "tup") and not (t.args[2].args[1] if t.args[2].op == "seq" else t.args[2].args):
        return t.args[1]
    return t


def shape(t: T) -> tuple:
    "A collection up to the numbering of bound variables and the wrapping of its elements in records."
    out = []
    for loops, conds, v in collection(t):
        m = {l[1]: T("bv", ("#", k)) for k, l in enumerate(loops) if len(l) == 2}

        def ren(x):
            if isinstance(x, T):
                if x in m:
                    return m[x]
                return T(x.op, tuple(ren(a) for a in x.args))
            if isinstance(x, tuple):
                return tuple(ren(a) for a in x)
            return x

        w = one_field(v)
        out.append((tuple(ren(l[0]) for l in loops), tuple(sorted((repr(ren(c)) for c in conds))), ren(w if w is not None else v)))
    return tuple(sorted(out, key=repr))


def alternatives(t: T, pc: tuple) -> Iterator[tuple[tuple, T]]:
    if t.op == "phi":
        if neg(t.args[0]) not in pc:
            yield from alternatives(t.args[1], pc + (t.args[0],))
        if t.args[0] not in pc:
            yield from alternatives(t.args[2], pc + (neg(t.args[0]),))
    else:
        yield pc, t


def rows(v: T) -> tuple[Optional[T], bool]:
    "The query whose (value, key) rows make up a dictionary, and whether the columns are swapped."
    if v.op == "call" and v.args[0] == "dict" and len(v.args[2]) == 1:
        a = strip(v.args[2][0][1])
        if a.op == "call" and method_name(a) == "query_all":
            return a, False
        v = a
    if v.op == "seq" and len(v.args[1]) == 1 and v.args[1][0].op in ("for", "splice"):
        ls = collection(v)
        if len(ls) == 1 and len(ls[0][0]) == 1 and len(ls[0][0][0]) == 2 and not ls[0][1]:
            src, bv = ls[0][0][0]
            kv = ls[0][2]
            if src.op == "call" and method_name(src) == "query_all":
                if kv == bv:
                    return src, False
                if len(kv.args) == 2 and kv.op in ("kv", "tup"):
                    idx = [x.args[1] if x.op in ("proj",) and x.args[0] == bv else x.args[1].args[0] if x.op == "sub" and x.args[0] == bv and x.args[1].op == "const" else None for x in kv.args]
                    if idx == [0, 1]:
                        return src, False
                    if idx == [1, 0]:
                        return src, True
    return None, False


def query(ctx: Ctx, name: str, q: T, table: T, swap: bool) -> None:
    s = dict(q.args[2]).get("statement")
    loc = q.loc or "?"
    for v in variants(s):
        ctx.count("lookup queries")
        text = ""
        holes: list[T] = []
        for p in v.parts:
            if isinstance(p, str):
                text += p
            elif isinstance(p, Hole):
                text += f"\x00{len(holes)}\x00"
                holes.append(p.term)
            else:
                text += "\x01"
        words = text.replace(",", " , ").replace(";", " ").split()
        up = [w.upper() for w in words]
        ok = len(words) == 6 and up[0] == "SELECT" and up[2] == "," and up[4] == "FROM" and all(words[i].startswith("\x00") for i in (1, 3, 5))
        ctx.check(ok, "dictionary", f"{name}: whole table", loc, f"the query does not read all rows of the lookup table: {text!r}")
        if not ok:
            continue
        a, b, t = (holes[int(words[i].strip(chr(0)))] for i in (1, 3, 5))
        if swap:
            a, b = b, a
        value = any(x.op == "call" and method_name(x) == "get_value_columns" for x in walk(a))
        key = any(x.op == "call" and method_name(x) == "get_primary_column" or x.op == "attr" and x.args[1] == "primary_key" for x in walk(b))
        ctx.check(value and key, "dictionary", f"{name}: columns", loc, f"the dictionary does not map the value column to the key column: {show(a)[:60]} -> {show(b)[:60]}")
        ctx.check(t == T("attr", (table, "name")), "dictionary", f"{name}: table", loc, f"another table is read: {show(t)[:60]}")


# -- translation functions


def translate(ctx: Ctx, c: ClassInfo, f: FuncInfo, kind: str) -> None:
    r = ctx.run(f, c)
    ctx.count("translations")
    d = T("param", ("enum_dict",))
    for v, _ in r.returns:
        if v.op == "func" or v.op == "closure":
            g = v.args[0]
            it = ctx.interp(lambda g2, recv: g2.parent is not None)
            body = it.run(g, None, closure=closure_env(v))
            args = [a.arg for a in g.args.args]
            arg = T("param", (args[-1] if args else "",))
            for w, pc in body.returns:
                for pc2, x in alternatives(w, pc):
                    good(ctx, f, kind, d, arg, x, pc2)
        elif kind == "scalar" and v.op == "attr" and v.args == (d, "__getitem__"):
            ctx.ok("translate", f"{f.short}: lookup", f.loc())
        else:
            ctx.bad("translate", f"{f.short}: lookup", f.loc(), f"not a function that looks up values: {show(v)[:100]}")


def lookup(x: T, d: T, v: T) -> bool:
    return x == T("sub", (d, v)) or x.op == "call" and method_name(x) in ("get", "__getitem__") and x.args[1] == d and len(x.args[2]) == 1 and x.args[2][0][1] == v


def good(ctx: Ctx, f: FuncInfo, kind: str, d: T, arg: T, x: T, pc: tuple) -> None:
    name = f"{f.short}: lookup"
    null = (T("isnone", (arg,)), True) in implied(pc)
    if null:
        ctx.check(x.op == "const" and x.args[0] is None or x.op == "seq" and not x.args[1], "translate", f"{f.short}: null", f.loc(), f"null is translated to {show(x)[:80]}")
        return
    if kind == "scalar":
        ctx.check(lookup(x, d, arg), "translate", name, f.loc(), f"a value is translated to {show(x)[:100]}")
        return
    x = strip_order(x)
    ok = x.op == "seq" and x.args[0] in ("list", "tuple") and len(x.args[1]) == 1 and x.args[1][0].op == "for" and len(x.args[1][0].args) == 3 and x.args[1][0].args[0] == arg
    ctx.check(ok, "translate", name, f.loc(), f"a list is translated to {show(x)[:100]}")
    if not ok:
        return
    _, bv, items = x.args[1][0].args
    for loops, conds, y in leaves(items):
        for pc2, z in alternatives(y, conds):
            lits = implied(pc2)
            if (T("isnone", (bv,)), True) in lits:
                ctx.check(z.op == "const" and z.args[0] is None, "translate", f"{f.short}: null element", f.loc(), f"null is translated to {show(z)[:80]}")
                continue
            ctx.check(lookup(z, d, bv) and not loops, "translate", f"{f.short}: element", f.loc(), f"an element is translated to {show(z)[:100]}")
            safe = (T("isnone", (bv,)), False) in lits or z.op == "call" and method_name(z) == "get"
            ctx.check(safe, "translate", f"{f.short}: null element", f.loc(), "a null element is looked up in the dictionary, where it is missing: loading breaks")
            extra = [l for l, p in lits if not (l.op == "isnone" and l.args[0] == bv)]
            ctx.check(not extra, "translate", f"{f.short}: all elements", f.loc(), f"an element is translated only if {[show(l)[:60] for l in extra]}")
    ctx.check(exhaustive(items), "translate", f"{f.short}: length", f.loc(), "an element is left out of the translated list")


def exhaustive(items: tuple) -> bool:
    n = 0
    for i in items:
        if i.op == "item":
            n += 1
        elif i.op == "if":
            if exhaustive(i.args[1]) and exhaustive(i.args[2]):
                n += 1
        elif i.op == "for":
            return False
    return n == 1


def strip_order(t: T) -> T:
    return t.args[0] if t.op in ("listof", "tupleof", "copy") and isinstance(t.args[0], T) else t


# -- choice of transformer


def choice(ctx: Ctx, c: ClassInfo, f: FuncInfo, kinds: dict[str, str]) -> None:
    r = ctx.run(f, c, inline=lambda g, recv: g.cls is not None and g.cls in c.project_mro() and g.name.startswith("_") and g.name != "_generate_records" or g.cls is None and g.module is c.module)
    ctx.count("choices")
    ft = T("param", ("field_type",))
    index = T("param", ("index",))
    terms = [x for v in [r.value] + [y for e in events(r) for y in e.pc] for x in walk(v)]
    relations = {x for x in terms if x.op == "call" and method_name(x) == "is_relation"}
    lookups = {x for x in terms if x.op == "call" and method_name(x) == "is_lookup_table"}
    ctx.check(bool(relations) and bool(lookups), "choice", f"{f.short}: lookup columns", f.loc(), "columns that refer to a lookup table are not told apart")
    nulls = {x: FALSE for x in terms if x.op == "isnone"  and x.args[0].op == "call"}
    columns = {x.args[2][0][1] for x in relations if x.args[2]}
    for relation in (True, False):
        for lookup_table in (True, False):
            for name in ("str", "list", "set", "int"):
                env = dict(nulls)
                env.update({x: const(relation) for x in relations})
                env.update({x: const(lookup_table) for x in lookups})
                env[ft] = T("extern", (name,))
                v = value_under(r.value, env)
                what = f"field type {name}, {'relation' if relation else 'no relation'}, {'lookup table' if lookup_table else 'no lookup table'}"
                want = ({"str": "scalar", "list": "list", "set": "list"}.get(name) if relation and lookup_table else None)
                ctx.count("cases of choice")
                if v.op != "new" and not (v.op == "const" and v.args[0] is None):
                    ctx.bad("choice", f"{f.short}: result", f.loc(), f"not a transformer for {what}: {show(v)[:80]}")
                    continue
                k = kinds.get(v.args[0].name) if v.op == "new" else None
                ctx.check(k == want, "choice", f"{f.short}: lookup columns", f.loc(), f"the transformer chosen for {what} is {v.args[0].name if v.op == 'new' else None}")
                if k is None or v.op != "new":
                    continue
                a = dict(v.args[1])
                label = f"{f.short}: {v.args[0].name}"
                ctx.check(a.get("index") == index, "choice", f"{label}: position", f.loc(), f"the transformer reads position {show(a['index'])[:60] if 'index' in a else None}")
                t = a.get("table")
                t = value_under(t, env) if isinstance(t, T) else None
                ok = t is not None and any(value_under(l.args[1], env) == t for l in lookups)
                ctx.check(ok, "choice", f"{label}: table", f.loc(), "the transformer is made for a table other than the lookup table tested")
                ok = t is not None and t.op == "call" and method_name(t) == "get_referenced_table"
                if ok:
                    ta = dict(t.args[2])
                    ok = ta.get("table_id") == T("attr", (T("param", ("table",)), "name")) and ta.get("column_id") in {T("attr", (col, "name")) for col in columns}
                ctx.check(ok, "choice", f"{label}: referenced table", f.loc(), "the table is not the one that the column refers to")


def position(ctx: Ctx, c: ClassInfo, f: FuncInfo) -> None:
    # helpers that enumerate the fields are looked into
    r = ctx.run(f, c, inline=lambda g, recv: g.name.startswith("_") and g.name != "_get_transformer" or g.parent is not None or g.cls is None and g.module is c.module)
    ctx.count("choices")
    for e in events(r):
        if e.op == "call" and method_name(e) == "_get_transformer":
            a = dict(e.args[2])
            i, t = a.get("index"), a.get("field_type")
            ok = isinstance(i, T) and i.op == "pos" and i.args[1] == T("const", (0,)) and any(x == T("param", ("field_types",)) for x in walk(i.args[0]))
            ctx.check(ok, "choice", f"{f.short}: position of the field", e.loc or f.loc(), f"the position passed on is not that of the field in the source record: {show(i)[:80] if isinstance(i, T) else None}")


# -- use in data sources


def applied(ctx: Ctx, c: ClassInfo, f: FuncInfo) -> None:
    r = ctx.run(f, c, inline=lambda g, recv: g.cls is not None and (g.cls in c.project_mro()) and g.name != "batches" or g.cls is None and g.module is c.module)
    ctx.count("transforming data sources")
    gets = [e for e in events(r) if e.op == "call" and method_name(e) == "get" and "RecordTransformer" in str(e.args[0])]
    ctx.check(len(gets) >= 1, "applied", f"{f.short}: prepared", f.loc(), "transformers are never asked for their functions")
    for e in gets:
        rec = dict(e.args[2]).get("records")
        each = [x for x in e.pc if x.op == "each"]
        batch = [x.args[1] for x in each if any(y.op == "call" and str(y.args[0]).endswith("DataSource.batches") for y in walk(x.args[0]))]
        ok = isinstance(rec, T) and len(batch) == 1 and one_to_one(rec, batch[0]) and rec.op in ("bv", "copy", "listof", "tupleof")
        ctx.check(ok, "applied", f"{f.short}: complete batch", e.loc or f.loc(), f"the transformer is given {show(rec)[:80] if isinstance(rec, T) else None} in place of the batch")
        others = [x for x in e.pc if x.op != "each"]
        ctx.check(not others, "applied", f"{f.short}: every batch", e.loc or f.loc(), f"the transformer is asked only if {[show(x)[:80] for x in others]}")
        ctx.check(len(each) == 2, "applied", f"{f.short}: once per transformer", e.loc or f.loc(), "the transformer is not asked once per batch")
