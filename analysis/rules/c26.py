"""
Decides that delimited text files are read and written without loss.

* `read`: every function that reads records is analysed with a typestate of the line read last (see `reading`): on all paths, each line
  up to the end of the stream is parsed, less its terminator, and delivered once and in order; reading ends at the end of the stream and
  not at an empty line.
* `header`: exactly one line is read before the records; the parser is made of it and of the types by name; types of columns are in the
  order of the columns of the file.
* `columns`: the names written to the header and the functions that extract values are made from one mapping in one order, each function
  extracts the field it is made for, and the field types given to a reader are under the names that the writer gives to the fields.
* `write`: each entity is written, in the order given, as the line that the generator makes of its values in the order of the header
  (which is what escapes special characters and nulls), followed by a line terminator; nothing else is written.
* `types`: plain types are read as themselves.
* `binding`: no function object refers to a variable that is assigned again before the function is called.
"""

from __future__ import annotations

from typing import Iterator, Optional

from ..common import guarded, method_name
from ..framework import Ctx, events
from ..program import AnalysisError, ClassInfo, FuncInfo
from ..reading import Reading
from ..terms import T, closure_env, is_const, rewrite, show, subst, walk
from . import c09

ASSUMPTIONS = [
    "a binary stream returns lines with their terminator, and nothing at its end",
    "the tsv package escapes values with special characters and nulls when it generates a line, and parses what it generates",
    "dictionaries keep the order of insertion",
]
MODULE = "data.exchange"
ME = T("param", ("self",))


def module(ctx: Ctx) -> str:
    for m in ctx.prog.modules:
        if m.endswith(MODULE):
            return m
    raise AnalysisError("no module for data exchange")


def local(ctx: Ctx):
    return lambda g, recv: g.module.name.endswith(MODULE) and not (g.cls is not None and g.cls.is_subclass_of("Protocol"))


def check(ctx: Ctx) -> None:
    readers = 0
    for name in ("TextReader", "AsyncTextReader"):
        c = ctx.prog.find_class(name)
        for m in ("read_records", "records"):
            f = c.find_method(m)
            if f is None:
                raise AnalysisError(f"no {name}.{m}")
            reading = Reading(c, lambda n, f=f: next((g for g in ctx.prog.functions() if g.name == n and g.cls is None and g.parent is None and g.module is f.module), None))
            reading.analyse(f)
            readers += 1
            ctx.count("reads", reading.reads)
            for (line, text) in sorted(reading.problems):
                ctx.bad("read", f"{f.short}: {text}", f"{f.loc().rsplit(':', 1)[0]}:{line}", text)
            if not reading.problems:
                ctx.ok("read", f"{f.short}", f.loc(), f"{reading.reads} abstract reads, {reading.parses} records parsed, {reading.deliveries} delivered")
        header(ctx, c)
    ctx.count("readers", readers)
    ctx.minimum("readers", 4)
    writer(ctx)
    field_types(ctx)
    types(ctx)
    for f in ctx.prog.functions():
        if f.module.name.endswith(MODULE) and f.parent is None:
            c09.loops(ctx, f, f.node)


# -- header


def header(ctx: Ctx, c: ClassInfo) -> None:
    found = []
    for m in ("__init__", "read_header"):
        f = c.find_method(m)
        if f is None:
            continue
        r = ctx.run(f, c, inline=local(ctx))
        evs = events(r)
        sets = [e for e in evs if e.op == "setattr" and e.args[1] == "parser" and e.args[0] == ME]
        if sets:
            found.append((f, evs, sets))
    if len(found) != 1:
        raise AnalysisError(f"{c.name}: the parser is made in {len(found)} places")
    f, evs, sets = found[0]
    reads = [e for e in evs if e.op == "call" and method_name(e) == "readline"]
    ctx.check(len(reads) == 1 and not reads[0].pc and not reads[0].args[2], "header", f"{f.short}: reads", f.loc(), f"{len(reads)} lines are read for the header")
    parser = sets[-1].args[2]
    names = [v for _, v in parser.args[2]] if parser.op == "call" else []
    given = (T("param", ("names_to_types",)), T("attr", (ME, "names_to_types")))
    ok = len(sets) == 1 and not sets[0].pc and len(names) == 2 and names[0] in given and reads and stripped(names[1], reads[0])
    ctx.check(bool(ok), "header", f"{f.short}: parser", f.loc(), f"the parser is {show(parser)[:160]}")
    ts = [e for e in evs if e.op == "setattr" and e.args[1] == "field_types" and e.args[0] == ME]
    ok = False
    if len(ts) == 1 and not ts[0].pc:
        v = c09.strip(ts[0].args[2])
        columns = (T("attr", (parser, "columns")), T("attr", (T("attr", (ME, "parser")), "columns")))
        if v.op == "seq" and len(v.args[1]) == 1 and v.args[1][0].op == "for":
            src, bv, body = v.args[1][0].args[:3]
            ok = c09.strip(src) in columns and len(v.args[1][0].args) == 3 and len(body) == 1 and body[0].op == "item" and body[0].args[0] in [T("sub", (g, bv)) for g in given]
    ctx.check(ok, "header", f"{f.short}: field types", f.loc(), f"the types of the columns are {[show(e.args[2])[:160] for e in ts]}")
    p = c.find_method("columns")
    if p is not None:
        v = ctx.run(p, c, inline=local(ctx)).value
        ctx.check(c09.strip(v) == T("attr", (T("attr", (ME, "parser")), "columns")), "header", f"{p.short}", p.loc(), f"the columns are {show(v)[:120]}")


def stripped(t: T, read: T) -> bool:
    "The line less its terminator."
    line = T("call", read.args[:3])
    if t.op == "strop" and t.args[0] in ("rstrip", "removesuffix"):
        recv, args = t.args[1], t.args[2]
        args = tuple(args)
    elif t.op == "call" and method_name(t) in ("rstrip", "removesuffix"):
        recv, args = t.args[1], tuple(v for _, v in t.args[2])
    else:
        return False
    values = [a.args[0] if isinstance(a, T) and a.op == "const" else a for a in args]
    return same_call(recv, line) and len(values) == 1 and values[0] in (b"\n", b"\r\n")


def same_call(t: T, line: T) -> bool:
    while t.op in ("await", "copy"):
        t = t.args[0]
    return t.op == "call" and method_name(t) == method_name(line) and t.args[1] == line.args[1] and not t.args[2]


# -- writer


def writer(ctx: Ctx) -> None:
    c = ctx.prog.find_class("TextWriter")
    f = c.find_method("__init__")
    it = ctx.interp(local(ctx))
    r = it.run(f, c)
    ctx.analysed(f)
    evs = events(r)
    kept = {a: it.freeze(v, r.state) for (o, a), v in r.state.attrs.items() if o == ME}
    given = T("param", ("field_mapping",))
    attr = None
    for (case, absent) in (("fields of the data-class", True), ("fields of a mapping", False)):
        cond = T("isnone", (given,))
        now = lambda t: assume(t, cond, absent)
        written, conditional = [], False
        for e in evs:
            if e.op == "call" and method_name(e) == "write":
                pc = [now(p) for p in e.pc]
                if any(is_const(p, False) for p in pc):
                    continue
                conditional = conditional or any(not is_const(p, True) for p in pc)
                written += pieces(now(e.args[2][0][1]))
        names = None
        if len(written) == 2 and not conditional and written[0].op == "join" and is_const(written[0].args[0], b"\t") and is_const(written[1], b"\n"):
            names = c09.strip(written[0].args[1])
        x = fold(names) if names is not None and names.op == "seq" else None
        if x is None:
            ctx.bad("columns", f"{f.short}: header, {case}", f.loc(), f"the header that is written is {[show(x)[:120] for x in written]}")
            continue
        m = label = None
        if decoded(x[2]) is not None:
            m, label = pair(x[0], x[1], decoded(x[2]), 1)
        ctx.check(m is not None, "columns", f"{f.short}: header, {case}", f.loc(), f"the header consists of {show(x[2])[:120]} for {show(x[0])[-60:]}")
        ex = [(k, fold(e)) for k, e in extractors({a: now(v) for a, v in kept.items()})]
        if len(ex) != 1 or ex[0][1] is None:
            ctx.bad("columns", f"{f.short}: extractors, {case}", f.loc(), f"there are {len(ex)} collections of functions")
            continue
        attr, (src2, bv2, fn) = ex[0]
        name = read_by(ctx, f, fn)
        m2 = pair(src2, bv2, name, 0)[0] if name is not None else None
        ctx.check(m2 is not None and m2 == m, "columns", f"{f.short}: extractors, {case}", f.loc(), f"functions are made of {show(fn)[:160]} for {show(src2)[-60:]}; the header of {show(m)[-60:] if m is not None else None}")
        ok = m == (T("every", ()) if absent else given)
        ctx.check(ok, "columns", f"{f.short}: {case}", f.loc(), f"fields are selected by {show(m)[:200] if m is not None else None}")
    if attr is not None:
        lines(ctx, c, attr)


def assume(t: T, cond: T, truth: bool) -> T:
    "A value when a condition is known to hold or fail."

    def step(x: T) -> Optional[T]:
        if x == cond:
            return T("const", (truth,))
        if x.op == "phi" and (c := decide(x.args[0])) is not None:
            return assume(x.args[1] if c else x.args[2], cond, truth)
        if x.op == "not" and (c := decide(x)) is not None:
            return T("const", (c,))
        if x.op == "seq" and any(i.op == "if" and decide(i.args[0]) is not None for i in x.args[1]):
            return assume(T("seq", (x.args[0], flat(x.args[1]))), cond, truth)
        if x.op == "for" and any(i.op == "if" and decide(i.args[0]) is not None for i in x.args[2]):
            return assume(T("for", (x.args[0], x.args[1], flat(x.args[2]), *x.args[3:])), cond, truth)
        return None

    def decide(c: T) -> Optional[bool]:
        if c == cond:
            return truth
        if c.op == "not" and (d := decide(c.args[0])) is not None:
            return not d
        return None

    def flat(items) -> tuple:
        out = []
        for i in items:
            if i.op == "if" and (c := decide(i.args[0])) is not None:
                out += flat(i.args[1] if c else i.args[2])
            else:
                out.append(i)
        return tuple(out)

    return rewrite(t, step)


def pair(src: T, bv: T, part: T, index: int) -> tuple[Optional[T], Optional[T]]:
    "The mapping such that a part of its items (0: key, 1: value) is enumerated, in order; `every` stands for each field under its own name."
    m, view = mapping(src)
    if m.op == "call" and method_name(m).split(".")[-1] in ("dataclass_fields", "fields"):
        return (T("every", ()), part) if view == "keys" and part == T("attr", (bv, "name")) else (None, None)
    ok = view == "keys" and part == (bv if index == 0 else T("sub", (m, bv))) or view == "values" and index == 1 and part == bv or view == "items" and part == T("proj", (bv, index))
    if not ok:
        return None, None
    return (T("every", ()) if every_field(m, lambda v: (T("attr", (v, "name")), T("attr", (v, "name")))) else m), part


def every_field(s: T, kv, cond: Optional[T] = None) -> bool:
    "A dictionary with one item for each field of the data-class."
    if s.op != "seq" or len(s.args[1]) != 1 or s.args[1][0].op != "for" or len(s.args[1][0].args) != 3:
        return False
    src, bv, body = s.args[1][0].args
    if not (src.op == "call" and method_name(src) in ("dataclass_fields", "fields")) or len(body) != 1:
        return False
    i = body[0]
    if cond is not None and i.op == "if":
        if subst(cond, T("bv", ("field",)), bv) != i.args[0] or len(i.args[1]) != 1 or i.args[2]:
            return False
        i = i.args[1][0]
    return i.op == "kv" and i.args == kv(bv)


def extractors(attrs: dict[str, T]) -> Iterator[tuple[str, T]]:
    "Collections that the writer keeps."
    for a, v in attrs.items():
        v = c09.strip(v)
        if v.op == "seq" and v.args[1]:
            yield a, v


def fold(v: T) -> Optional[tuple]:
    if len(v.args[1]) == 1 and v.args[1][0].op == "for" and len(v.args[1][0].args) == 3:
        src, bv, body = v.args[1][0].args
        if len(body) == 1 and body[0].op == "item":
            return src, bv, body[0].args[0]
    return None


def mapping(src: T) -> tuple[T, str]:
    src = c09.strip(src)
    if src.op == "call" and method_name(src) in ("keys", "values", "items") and src.args[1] is not None:
        return c09.strip(src.args[1]), method_name(src)
    return src, "keys"


def decoded(t: Optional[T]) -> Optional[T]:
    "The text that is written in bytes."
    if t is None:
        return None
    if t.op == "call" and method_name(t) == "encode":
        vs = [v.args[0] for _, v in t.args[2] if v.op == "const"]
        return t.args[1] if all(v in ("utf-8", "utf8", "strict") for v in vs) else None
    if t.op == "strop" and t.args[0] == "encode":
        return t.args[1]
    return None


def pieces(t: T) -> list[T]:
    "What a concatenation of byte strings consists of."
    if t.op == "binop" and t.args[0] in ("+", "Add"):
        return pieces(t.args[1]) + pieces(t.args[2])
    if t.op == "tmpl":
        return [x for p in t.args for x in (pieces(p) if isinstance(p, T) else [T("const", (p,))])]
    if t.op == "join" and is_const(t.args[0], b"") and t.args[1].op == "seq" and all(i.op == "item" for i in t.args[1].args[1]):
        return [x for i in t.args[1].args[1] for x in pieces(i.args[0])]
    return [t]


def read_by(ctx: Ctx, f: FuncInfo, fn: T) -> Optional[T]:
    "The name of the attribute that a function returns."
    if fn.op == "call" and method_name(fn).split(".")[-1] == "attrgetter":
        return fn.args[2][0][1] if len(fn.args[2]) == 1 else None
    if fn.op in ("closure", "func"):
        g: FuncInfo = fn.args[0]
        params = [a.arg for a in g.args.args]
        if not params:
            return None
        v = ctx.interp(local(ctx)).run(g, None, closure=closure_env(fn) if fn.op == "closure" else None).value
        if v.op == "call" and method_name(v) == "getattr" and len(v.args[2]) == 2 and v.args[2][0][1] == T("param", (params[0],)):
            return v.args[2][1][1]
    return None


def lines(ctx: Ctx, c: ClassInfo, attr: str) -> None:
    f = c.find_method("write_objects")
    r = ctx.run(f, c, inline=local(ctx))
    entities = T("param", (f.args.args[1].arg,))
    writes = [e for e in events(r) if e.op == "call" and method_name(e) in ("write", "writelines")]
    problem = None
    out: list[T] = []
    for e in writes:
        each = [p for p in e.pc]
        if len(each) != 1 or each[0].op != "each" or c09.strip(each[0].args[0]) != entities or method_name(e) != "write":
            problem = f"{show(e)[:120]} is not for each entity"
            break
        if not (e.args[1] == T("attr", (ME, "stream"))):
            problem = "not the stream of the writer"
        out += [subst(x, each[0].args[1], T("bv", ("entity",))) for x in pieces(e.args[2][0][1])]
    if problem is None:
        ok = len(out) == 2 and is_const(out[1], b"\n") and out[0].op == "call" and method_name(out[0]) == "generate_line"
        values = c09.strip(out[0].args[2][0][1]) if ok else None
        if ok:
            x = fold(values) if values.op == "seq" else None
            ok = x is not None and c09.strip(x[0]) == T("attr", (ME, attr)) and x[2].op == "call" and x[2].args[1] == x[1] and [v for _, v in x[2].args[2]] == [T("bv", ("entity",))]
        problem = None if ok else f"what is written for each entity is {[show(x)[:120] for x in out]}"
    ctx.check(problem is None, "write", f"{f.short}", f.loc(), problem or "")


# -- types


def field_types(ctx: Ctx) -> None:
    f = next((g for g in ctx.prog.functions() if g.name == "fields_to_types" and g.module.name.endswith(MODULE)), None)
    if f is None:
        raise AnalysisError("no fields_to_types")
    v = c09.strip(ctx.run(f, None, inline=local(ctx)).value)
    bv = T("bv", ("field",))
    ok = False
    shown = show(v)[:300]
    for g in [x for x, _ in guarded(v) if x.op == "seq"] if v.op == "phi" else [v]:
        if g.op != "seq" or len(g.args[1]) != 1 or g.args[1][0].op != "for":
            continue
        src, b, body = g.args[1][0].args[:3]
        i = body[0] if len(body) == 1 else T("none", ())
        m = None
        if i.op == "if" and i.args[0].op == "in" and i.args[0].args[0] == T("attr", (b, "name")) and len(i.args[1]) == 1 and not i.args[2]:
            m = mapping(i.args[0].args[1])[0]
            i = i.args[1][0]
        if i.op != "kv" or not (src.op == "call" and method_name(src) in ("dataclass_fields", "fields")):
            continue
        k, t = i.args
        named = k.op == "sub" and k.args[1] == T("attr", (b, "name")) and (m is None or mapping(k.args[0])[0] == m)
        typed = t.op == "attr" and t.args[1] == "tsv_type" and T("attr", (b, "type")) in set(walk(t)) and not any(x.op == "bv" and x != b for x in walk(t))
        ok = named and typed and len(g.args[1][0].args) == 3
    ctx.check(ok, "columns", f"{f.short}", f.loc(), f"types are given by {shown}")


PLAIN = ["bool", "bytes", "int", "float", "str", "uuid.UUID", "datetime.datetime", "datetime.date", "datetime.time", "decimal.Decimal", "ipaddress.IPv4Address", "ipaddress.IPv6Address"]


def types(ctx: Ctx) -> None:
    f = next((g for g in ctx.prog.functions() if g.name == "tsv_type" and g.cls is None), None)
    if f is None:
        raise AnalysisError("no tsv_type")
    r = ctx.run(f, None, inline=lambda g, recv: False)
    plain = T("call", ("strong_typing.inspection.unwrap_annotated_type", None, (("0", T("param", (f.args.args[0].arg,))),)))
    for name in PLAIN:
        v = specialise(r.value, name)
        ctx.check(v == T("extern", (name,)), "types", f"{f.short}: {name}", f.loc(), f"{name} is read as {show(v)[:100]}")


def specialise(t: T, name: str) -> T:
    "The value for a plain type: tests for composite types fail, and comparisons with types are decided."
    while t.op == "phi":
        c = truth(t.args[0], name)
        if c is None:
            return t
        t = t.args[1] if c else t.args[2]
    if t.op == "call" and method_name(t).split(".")[-1] == "unwrap_annotated_type":
        return T("extern", (name,))
    return t


def truth(c: T, name: str) -> Optional[bool]:
    if c.op == "not":
        v = truth(c.args[0], name)
        return None if v is None else not v
    if c.op in ("and", "or"):
        vs = [truth(x, name) for x in c.args]
        stop = c.op == "or"
        return stop if stop in vs else None if None in vs else not stop
    if c.op == "call" and method_name(c).split(".")[-1].startswith("is_"):
        return False
    if c.op == "cmp" and c.args[0] in ("is", "is not", "==", "!="):
        a, b = c.args[1:]
        if b.op != "extern":
            a, b = b, a
        if b.op == "extern" and not (a.op == "call" and method_name(a).split(".")[-1] == "get_origin"):
            return (b.args[0] == name) == (c.args[0] in ("is", "=="))
        return c.args[0] not in ("is", "==")
    if c.op == "in":
        coll = [x.args[0] for x in walk(c.args[1]) if x.op == "extern"]
        return name in coll
    return None
