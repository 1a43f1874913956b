"""
Decides that a type two column types are merged into holds every value of both.

* `holds`: the function that merges two types is extracted as a decision over the classes of its operands and expressions over their
  sizes, and evaluated on every ordered pair of classes of column types of each dialect and on representatives of every region of
  sizes (no size, the neighbours of each constant that the function or the text of a type is compared with, and sizes on both sides of
  each other). The type it yields, in the words of the dialect, takes the longest value of both operands; a number type has at least
  the width of both; a type is merged with a type of another kind only if the latter is subsumed.
* `fold`: the function that merges a list merges all its elements.
* `members`: where a field of several types becomes a column, the types of all members are merged, none is left out, and the type of
  each literal value is as long as the value.
* `keys`: where one key type stands for all members of a discriminated union, the types of the keys are the same.
"""

from __future__ import annotations

import itertools
import re
from typing import Iterator, Optional

from ..capacity import BARE, INF, size
from ..common import guarded, hierarchy
from ..finite import Finite, Obj, Raised, Undecided, constants
from ..framework import Ctx, events
from ..program import AnalysisError, ClassInfo, FuncInfo
from ..terms import T, is_const, show, walk
from . import c05

ASSUMPTIONS = [
    "the tables of sizes in analysis/capacity.py, from the manuals of the databases; sizes are counted in the unit in which the type declares them",
    "values of a narrower integer or floating-point type are values of the wider one; integer types differ by width only, as the statements that declare them show",
    "the encoding of a SQL Server text type is that of the converter (unset); the merge takes place on types made by the converter only",
]
LENGTH = {"SqlFixedCharacterType": ("limit", "text"), "SqlVariableCharacterType": ("limit", "text"), "SqlFixedBinaryType": ("storage", "bytes"), "SqlVariableBinaryType": ("storage", "bytes")}
# classes of numeric types whose values a type of the class takes
NUMERIC = {"SqlRealType": {"SqlRealType"}, "SqlDoubleType": {"SqlRealType", "SqlDoubleType"}}
# the type of a Python type without a substitute
DEFAULTS = {"int": "SqlIntegerType", "float": "SqlDoubleType", "float32": "SqlRealType", "str": "SqlVariableCharacterType", "bytes": "SqlVariableBinaryType"}


def family(c: ClassInfo) -> str:
    "The class of the base model that a class of types derives from."
    for m in c.project_mro():
        if m.module.name.endswith("model.data_types") and m.name != "SqlDataType":
            return m.name
    return c.name


def dialect_classes(ctx: Ctx) -> dict[str, list[ClassInfo]]:
    "Classes of column types that the converter makes in each dialect: the substitutes that its generator registers, and the classes of the model for what has no substitute."
    base = [c for c in hierarchy(ctx.prog, "SqlDataType") if not c05.dialect_of(c) and c.name != "SqlDataType"]
    out = {}
    for d, g, init in c05.generators(ctx):
        made: list[ClassInfo] = []
        keys: set[str] = set()
        r = ctx.run(init, g, inline=c05.inline_ctor)
        options = c05.converter_options(r)
        if not options:
            raise AnalysisError(f"{g.short} does not make a converter")
        for o, _ in options:
            s = o.get("substitutions")
            for t in walk(s) if s is not None else ():
                if t.op == "kv":
                    keys.add(show(t.args[0]).strip("')").rsplit("'", 1)[-1])
                    for x in walk(t.args[1]):
                        if x.op == "new" and x.args[0] not in made:
                            made.append(x.args[0])
        replaced = {DEFAULTS[k] for k in keys if k in DEFAULTS}
        out[d] = [c for c in base if c.name not in replaced] + [c for c in made if c not in base]
    return out


def merge_function(ctx: Ctx) -> FuncInfo:
    f = next((g for g in ctx.prog.functions() if g.name == "compatible_type" and g.cls is None), None)
    if f is None:
        raise AnalysisError("no function compatible_type")
    return f


def sizes(points: set[int]) -> list[Optional[int]]:
    ps = {1, 2, 3}
    for p in points:
        ps |= {p - 1, p, p + 1}
    return [None] + sorted(p for p in ps if p > 0)


def check(ctx: Ctx) -> None:
    f = merge_function(ctx)
    pair = fold(ctx, f)
    holds(ctx, pair)
    members(ctx, f)


# -- all elements are merged

def fold(ctx: Ctx, f: FuncInfo) -> FuncInfo:
    "The function that merges two types, after verification that the elements of the list are merged by it."
    r = ctx.run(f, None, inline=lambda g, recv: False)
    ctx.analysed(f)
    p = T("param", (f.args.args[0].arg,))
    values = [v for v, _ in r.returns]
    pair: Optional[FuncInfo] = None
    good = bool(values)
    for v in values:
        g = None
        if v.op == "call" and v.args[0] == "functools.reduce":
            args = [x for _, x in v.args[2]]
            if args and args[0].op in ("func", "closure"):
                g = through(ctx, args[0].args[0])
                whole = len(args) == 2 and args[1] == p or len(args) == 3 and covers(args[2], args[1], p)
                g = g if whole else None
        elif v.op == "loopout" or any(x.op == "loopout" for x in walk(v)):
            g = loop_fold(r, f, p)
        if g is None:
            good = False
            break
        pair = g
    if pair is None:
        pair = next((g for g in ctx.prog.functions() if g.name == "_compatible_type"), None)
        if pair is None:
            raise AnalysisError("no function that merges two types")
    ctx.check(good, "fold", f.short, f.loc(), "the result is the merge of all elements of the list" if good else f"the result may leave out an element: {'; '.join(show(v)[:120] for v in values)}")
    return pair


def through(ctx: Ctx, g: FuncInfo) -> FuncInfo:
    "The function that a wrapper passes its two arguments to."
    names = [T("param", (a.arg,)) for a in g.args.args]
    r = ctx.run(g, None, inline=lambda h, recv: False)
    if len(r.returns) == 1 and not r.returns[0][1]:
        v = r.returns[0][0]
        if v.op == "call" and v.args[1] is None and isinstance(v.meta, FuncInfo) and v.meta is not g and sorted(map(show, (x for _, x in v.args[2]))) == sorted(map(show, names)):
            return v.meta
    return g


def covers(first: T, rest: T, p: T) -> bool:
    "The first element, and the rest of the list (an overlap does no harm)."
    if first.op == "sub" and first.args[0] == p and (is_const(first.args[1], 0) or first.args[1].op == "const"):
        i = first.args[1].args[0]
        if rest == p:
            return True
        if rest.op == "slice" and rest.args[0] == p:
            lo, hi = rest.args[1], rest.args[2]
            none = lambda x: x is None or isinstance(x, T) and is_const(x, None)
            return i == 0 and isinstance(lo, T) and is_const(lo, 1) and none(hi) or i == -1 and (none(lo) or is_const(lo, 0)) and isinstance(hi, T) and is_const(hi, -1)
    return False


def loop_fold(r, f: FuncInfo, p: T) -> Optional[FuncInfo]:
    "A loop that replaces the accumulated type by its merge with the next element, in all iterations."
    import ast
    loops = [n for n in ast.walk(f.node) if isinstance(n, ast.For)]
    rets = [n for n in ast.walk(f.node) if isinstance(n, ast.Return)]
    if len(loops) != 1 or loops[0].orelse or len(loops[0].body) != 1 or not isinstance(loops[0].target, ast.Name) or not rets or not isinstance(rets[-1].value, ast.Name):
        return None
    lp, acc = loops[0], rets[-1].value.id
    st = lp.body[0]
    if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == acc and isinstance(st.value, ast.Call)):
        return None
    names = [x.id for x in st.value.args + [k.value for k in st.value.keywords] if isinstance(x, ast.Name)]
    if sorted(names) != sorted([acc, lp.target.id]) or not isinstance(st.value.func, ast.Name):
        return None
    inits = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and n is not st and isinstance(n.targets[0], ast.Name) and n.targets[0].id == acc]
    if len(inits) != 1:
        return None
    src, init = ast.unparse(lp.iter), ast.unparse(inits[0])
    name = p.args[0]
    if (init, src) not in {(f"{name}[0]", f"{name}[1:]"), (f"{name}[0]", name), (f"{name}[-1]", f"{name}[:-1]"), (f"{name}[-1]", name)}:
        return None
    for g in f.module.functions.values():
        if g.name == st.value.func.id:
            return g
    return None


# -- the result holds both

def holds(ctx: Ctx, pair: FuncInfo) -> None:
    fin = Finite(ctx)
    ctx.analysed(pair)
    names = [a.arg for a in pair.args.posonlyargs + pair.args.args]
    if len(names) != 2:
        raise AnalysisError(f"{pair.short} does not merge two types")
    base = constants(fin.result(pair, None))
    done: dict[tuple, Optional[str]] = {}
    total = 0
    for d, classes in sorted(dialect_classes(ctx).items()):
        merged, problems = 0, {}
        for x, y in itertools.product(classes, classes):
            n, found = pair_problems(ctx, fin, pair, names, d, x, y, base)
            ctx.count("pairs", 1)
            ctx.count("evaluations", n)
            for k, text in found:
                problems.setdefault(k, f"{x.name} and {y.name}: {text}")
            if n:
                merged += 1
                if not found:
                    ctx.ok("holds", f"{d}: {x.name} and {y.name}", pair.loc(), "the merged type holds the values of both")
        for k, text in sorted(problems.items()):
            ctx.bad("holds", f"{d}: {k}", pair.loc(), text)
        total += merged
    ctx.count("merged pairs", total)
    ctx.minimum("merged pairs", 60)


def instances(fin: Finite, c: ClassInfo, points: list[Optional[int]]) -> Iterator[Obj]:
    fam = family(c)
    try:
        if fam in LENGTH:
            for n in points:
                try:
                    yield fin.construct(c, [(LENGTH[fam][0], n)])
                except Raised:
                    yield fin.construct(c, [])
                    return
        elif fam == "SqlIntegerType":
            for w in (1, 2, 4, 8):
                try:
                    yield fin.construct(c, [("width", w)])
                except Raised:
                    yield fin.construct(c, [])
                    return
        elif fam in ("SqlArrayType", "SqlEnumType", "SqlStructType", "SqlUserDefinedType"):
            o = next(iter(c.dataclass_fields()))
            yield fin.construct(c, [(o[0], f"<{c.name}>")])
        elif fam == "SqlDecimalType":
            for p, s in ((None, None), (5, None), (5, 2), (7, 3)):
                yield fin.construct(c, [("precision", p), ("scale", s)])
        elif fam == "SqlFloatType":
            for p in (None, 10, 40):
                yield fin.construct(c, [("precision", p)])
        elif fam in ("SqlTimestampType", "SqlTimeType"):
            for p in (None, 0, 6):
                for z in (False, True):
                    try:
                        yield fin.construct(c, [("precision", p), ("with_time_zone", z)])
                    except Raised:
                        yield fin.construct(c, [])
                        return
        else:
            yield fin.construct(c, [])
    except Raised:
        return


def pair_problems(ctx: Ctx, fin: Finite, pair: FuncInfo, names: list[str], d: str, x: ClassInfo, y: ClassInfo, base: set[int]) -> tuple[int, list[tuple[str, str]]]:
    points = set(base)
    if family(x) in LENGTH and family(y) in LENGTH:
        for c in (x, y):
            s = c.find_method("__str__")
            if s is not None:
                points |= constants(fin.result(s, c))
        points |= {int(n) for n in BARE.get(d, {}).values() if n and n != INF}
    ns = sizes(points)
    count, found = 0, []
    for l in instances(fin, x, ns):
        for r in instances(fin, y, ns):
            try:
                v = fin.call(pair, None, {names[0]: l, names[1]: r})
            except Raised:
                continue
            except Undecided as e:
                raise AnalysisError(f"{pair.short} on {l} and {r}: {e}")
            count += 1
            if not isinstance(v, Obj):
                found.append((f"{x.name} and {y.name}", f"the merge of {l} and {r} is not a type"))
                continue
            for o in (l, r):
                why = loses(fin, d, o, v)
                if why is not None:
                    found.append((why, f"{l} and {r} become {v}: {why}"))
    return count, found


def word(fin: Finite, o: Obj) -> str:
    try:
        return re.sub(r"\d+", "n", fin.text(o))
    except Raised:
        return o.cls.name


def needed(fin: Finite, d: str, o: Obj) -> Optional[float]:
    "Length of the longest value of a type; None if the type cannot be declared."
    fam = family(o.cls)
    n = o.get(LENGTH[fam][0])
    try:
        have = size(d, fin.text(o))
    except Raised:
        return None
    if have is None:
        return None
    if fam.startswith("SqlFixed"):
        return n or 1  # type: ignore
    return have if n is None else min(n, have)  # type: ignore


def loses(fin: Finite, d: str, o: Obj, v: Obj) -> Optional[str]:
    if o == v:
        return None
    a, b = family(o.cls), family(v.cls)
    if a in LENGTH:
        if b not in LENGTH or LENGTH[a][1] != LENGTH[b][1]:
            return f"{word(fin, v)} for {word(fin, o)}: of another kind"
        if b.startswith("SqlFixed") and not a.startswith("SqlFixed"):
            return f"{word(fin, v)} for {word(fin, o)}: values are padded"
        need, have = needed(fin, d, o), needed(fin, d, v)
        if need is None or have is None:
            return None  # the database refuses the type
        return f"{word(fin, v)} for {word(fin, o)}: shorter" if have < need else None
    if a == "SqlIntegerType":
        if b != "SqlIntegerType":
            return f"{word(fin, v)} for {word(fin, o)}: of another kind"
        return None if v.get("width") >= o.get("width") else "narrower integer"  # type: ignore
    if a in NUMERIC:
        return None if a in NUMERIC.get(b, ()) else f"{word(fin, v)} for {word(fin, o)}: of less precision"
    return None if a == b and fin.equal(o, v) else f"{word(fin, v)} for {word(fin, o)}: of another kind"


# -- all members take part

def members(ctx: Ctx, f: FuncInfo) -> None:
    sites = 0
    for g in sorted({c for c in ctx.prog.functions() if any(n == f.name for n in called(c)) and c is not f}, key=lambda c: c.short):
        r = ctx.run(g, g.cls, inline=lambda h, recv: h.cls is None and h.module is g.module and h.name.startswith("_"))
        ctx.analysed(g)
        for e in events(r):
            if not (e.op == "call" and e.meta is f):
                continue
            arg = dict(e.args[2])[f.args.args[0].arg]
            for t, pc in guarded(arg):
                if t.op != "seq":
                    if t is arg and t.op != "phi":
                        sites += 1
                        ctx.bad("members", f"{g.short}: {show(t)[:60]}", g.loc(), f"not known to have the types of all members: {show(t)[:120]}")
                    continue
                if t is not arg and not any(t is x for x in branches(arg)):
                    continue
                sites += 1
                why = member_problem(t)
                ctx.check(why is None, "members", f"{g.short}: {source_name(t)}", e.loc or g.loc(), why or "the types of all members are merged")
        keys(ctx, g, r)
    ctx.count("lists of members", sites)
    ctx.minimum("lists of members", 3)


def called(f: FuncInfo) -> set[str]:
    import ast
    return {n.func.id if isinstance(n.func, ast.Name) else n.func.attr for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute))}


def branches(t: T) -> Iterator[T]:
    if t.op == "phi":
        yield from branches(t.args[1])
        yield from branches(t.args[2])
    else:
        yield t


def strip(t: T) -> T:
    while t.op in ("copy", "listof", "tupleof", "setof", "sorted", "ornone", "reversed") and isinstance(t.args[0], T):
        t = t.args[0]
    return t


def source_name(t: T) -> str:
    for x in walk(t):
        if x.op == "call" and x.args[1] is None and ("unwrap" in x.args[0]):
            return x.args[0].rsplit(".", 1)[-1]
    return show(t)[:40]


def member_problem(t: T) -> Optional[str]:
    if len(t.args[1]) != 1 or t.args[1][0].op != "for" or len(t.args[1][0].args) != 3:
        return f"not one type for each member: {show(t)[:120]}"
    src, bv, items = t.args[1][0].args
    src = strip(src)
    if len(items) != 1 or items[0].op != "item":
        return f"some members are left out: {show(t)[:160]}"
    if src.op == "seq":
        why = member_problem(src) if not plain(src) else None
        if why is not None:
            return why
    elif not (src.op == "call" and src.args[1] is None and src.args[0].rsplit(".", 1)[-1] in ("unwrap_union_types", "unwrap_literal_types", "unwrap_literal_values")):
        return f"not all members are considered: {show(src)[:120]}"
    v = items[0].args[0]
    if v.op == "new" and v.args[0].name in LENGTH:
        n = dict(v.args[1]).get(LENGTH[v.args[0].name][0])
        if v.args[0].name == "SqlVariableCharacterType" and (n is None or is_const(n, None)):
            return None
        if not (n is not None and at_least(n, bv)):
            return f"the type of a literal value may be shorter than the value: {show(v)}"
        return None
    if not any(x == bv for x in walk(v)):
        return f"the type does not depend on the member: {show(v)[:120]}"
    return None


def plain(s: T) -> bool:
    "A list with one entry for each member of a type."
    if len(s.args[1]) == 1 and s.args[1][0].op == "for" and len(s.args[1][0].args) == 3:
        src, bv, items = s.args[1][0].args
        return len(items) == 1 and items[0].op == "item" and any(x == bv for x in walk(items[0])) and strip(src).op == "call"
    return False


def at_least(n: T, bv: T) -> bool:
    "The size is no less than the length of the value."
    if n.op == "len":
        return n.args[0] == bv or n.args[0].op == "call" and n.args[0].args[0] == ".encode"
    if n.op == "call" and n.args[0] in ("max",):
        return any(at_least(x, bv) for _, x in n.args[2])
    if n.op == "binop" and n.args[0] == "Add":
        return any(at_least(x, bv) and y.op == "const" and isinstance(y.args[0], int) and y.args[0] >= 0 for x, y in ((n.args[1], n.args[2]), (n.args[2], n.args[1])))
    return False


# -- one type of keys

def keys(ctx: Ctx, g: FuncInfo, r) -> None:
    from ..common import truth_under
    for v, pc in r.returns:
        picked = [x for x in walk(v) if x.op == "seq" and any("primary_key_type" in show(y)[:200] for y in x.args[1]) or x.op == "setof" and "primary_key_type" in show(x)[:400]]
        for s in picked:
            if not any(x.op == "call" and x.args[0] in (".pop", "set.pop", "next") or x.op in ("next", "sub", "bv") for x in walk(v)):
                continue
            single = any(c.op == "not" and only_one(c.args[0], s) or c.op == "cmp" and c.args[0] == "==" and len_of(c, s) for c in pc)
            ctx.check(single, "keys", g.short, g.loc(), "the keys of all members have the same type" if single else "the key of one member stands for all, but the types may differ")
            ctx.count("key types", 1)


def len_of(c: T, s: T) -> bool:
    return any(x.op == "len" and x.args[0] == s for x in walk(c)) and any(is_const(x, 1) for x in c.args[1:])


def only_one(c: T, s: T) -> bool:
    return c.op == "cmp" and c.args[0] in (">", ">=", "!=") and any(x.op == "len" and x.args[0] == s for x in walk(c)) and any(is_const(x, 1) or c.args[0] == ">=" and is_const(x, 2) for x in c.args[1:])
