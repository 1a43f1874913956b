"""
Decides delivery of records on three kinds of functions.

* `split`: every data source that collects records into batches is analysed with a typestate for its buffers (empty, pending, handed
  out, copied out) over all paths and to a fixpoint over its loops: each record is stored exactly once, no pending record is discarded
  or left at the end, nothing delivered is delivered again, a batch handed out is not touched, and the function ends only when its
  input is exhausted.
* `map`: every data source derived from another yields exactly one batch per batch of its input, and one record per record, without a
  condition and in the same order.
* `pass`: in every operation of a database context that takes a stream of records (found by parameter type), on every path that
  returns normally, the stream is used exactly once: given to one operation, iterated once, or returned; a stream made from it is used
  exactly once in turn; a path that does not use it is one on which it is known to be empty; and each batch iterated over is given to
  the driver exactly once, whole and unconditionally.
"""

from __future__ import annotations

import ast
from typing import Iterable, Iterator, Optional

from ..batching import Batching
from ..calls import Calls
from ..common import hierarchy, implied, paths, relevant
from ..framework import Ctx
from ..program import AnalysisError, ClassInfo, FuncInfo, dotted, walk_own
from ..terms import T, children, neg, show, walk

ASSUMPTIONS = [
    "an input iterable yields its records in order and is not modified while it is read",
    "drivers and file-like objects process every record of a batch passed to them",
    "the batch size is at least one",
    "a call that raises ends the operation; the exception reaches the caller (see C13)",
]

CONTRACT = {"execute_all", "_execute_all", "_execute_typed", "insert_rows", "_insert_rows", "upsert_rows", "_upsert_rows", "delete_rows", "_delete_rows",
            "_generate_records", "_get_transformer", "execute", "_execute", "query_all", "query_one", "batches", "get_dataclasses_as_records", "insert_data", "upsert_data", "delete_data"}
STREAMS = {"DataSource", "RecordSource", "Iterable", "AsyncIterable", "Iterator", "AsyncIterator"}
LOGGERS = ("debug", "info", "warning", "error", "exception", "log", "isEnabledFor")


def stream_params(f: FuncInfo) -> list[str]:
    out = []
    for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs:
        if a.annotation is None:
            continue
        names = {n.id for n in ast.walk(a.annotation) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(a.annotation) if isinstance(n, ast.Attribute)}
        if isinstance(a.annotation, ast.Constant) and isinstance(a.annotation.value, str):
            names |= set(x for x in STREAMS if x in a.annotation.value)
        if names & STREAMS and "type" not in names and "Callable" not in names:
            out.append(a.arg)
    return out


def check(ctx: Ctx) -> None:
    prog = ctx.prog
    calls = Calls(prog)
    source = prog.find_class("DataSource")
    kinds = [c for c in [source] + source.all_subclasses()]
    for c in kinds:
        f = c.methods.get("batches")
        if f is None or f.is_abstract or c is source:
            continue
        ctx.analysed(f)
        derived = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "batches" for n in walk_own(f.node))
        if derived:
            ctx.count("derived data sources")
            mapped(ctx, f, c)
        else:
            ctx.count("batching data sources")
            split(ctx, calls, f, lambda e: dotted(e) is not None and dotted(e).startswith("self.") and dotted(e).count(".") == 1, set(), set())
    ctx.minimum("batching data sources", 2)
    ctx.minimum("derived data sources", 3)

    make = [f for m in prog.modules.values() for f in m.functions.values() if f.name == "to_data_source"]
    for f in make:
        flow(ctx, f, None)
    for c in hierarchy(prog, "BaseContext"):
        for f in c.methods.values():
            if stream_params(f) and not f.is_abstract:
                flow(ctx, f, c)
    for c in hierarchy(prog, "BaseGenerator"):
        f = c.methods.get("get_dataclasses_as_records")
        if f is not None:
            flow(ctx, f, c)
    ctx.minimum("operations that take a stream", 20)
    ctx.minimum("batch loops", 6)


# -- splitting


def split(ctx: Ctx, calls: Calls, f: FuncInfo, is_source, params: set[str], seen: set[int]) -> None:
    if id(f.node) in seen:
        return
    seen.add(id(f.node))
    problems: dict[tuple[str, int], tuple[str, str]] = {}
    nodes: dict[str, tuple[ast.AST, str]] = {}

    def report(rule: str, node: ast.AST, msg: str) -> None:
        problems.setdefault((rule, getattr(node, "lineno", 0)), (rule, msg))
        nodes[rule] = (node, msg)

    def helper(call: ast.Call) -> Optional[FuncInfo]:
        gs = calls.resolve(f, call)
        return gs[0] if len(gs) == 1 else None

    b = Batching(f, is_source, helper, report, params)
    b.run()
    for rule, label in (("lost", "no record is lost"), ("twice", "no record is delivered twice"), ("modified", "a batch handed out is left alone"), ("end", "the whole input is read"), ("other", "only records are stored")):
        hit = nodes.get(rule)
        loc = f.loc() if hit is None else f"{f.loc().rsplit(':', 1)[0]}:{getattr(hit[0], 'lineno', 0)}"
        ctx.check(hit is None, "split", f"{f.short}: {label}", loc, hit[1] if hit else "")
    ctx.check(b.yields > 0 or bool(b.delegates), "split", f"{f.short}: delivers", f.loc(), "no batch is ever delivered")
    for n in b.unknown:
        ctx.notes.append(f"{f.short}:{getattr(n, 'lineno', 0)}: not followed: {ast.unparse(n)[:80]}")
    ctx.count("buffers not followed", len(b.unknown))
    for g, p in b.delegates:
        ctx.analysed(g)
        split(ctx, calls, g, is_source if not p else (lambda e: False), {p} if p else set(), seen)


# -- mapping


def one_to_one(t: T, src: T) -> bool:
    "A collection with exactly one element for each element of another, in order."
    if t == src:
        return True
    if t.op in ("copy", "listof", "tupleof", "iter") and isinstance(t.args[0], T):
        return one_to_one(t.args[0], src)
    if t.op == "phi":
        return one_to_one(t.args[1], src) and one_to_one(t.args[2], src)
    if t.op == "seq" and t.args[0] not in ("set", "dict") and len(t.args[1]) == 1:
        i = t.args[1][0]
        if i.op == "splice":
            return one_to_one(i.args[0], src)
        if i.op == "for" and len(i.args) == 3 and one_to_one(i.args[0], src):
            return single(i.args[2], i.args[1])
    return False


def single(items: tuple, bv: Optional[T]) -> bool:
    "Exactly one element on every path, made from the element of the iteration."
    items = tuple(i for i in items if i.op != "discard")
    if len(items) != 1:
        return False
    i = items[0]
    if i.op == "item":
        return bv is None or any(x == bv for x in walk(i.args[0]))
    if i.op == "if":
        return single(i.args[1], bv) and single(i.args[2], bv)
    return False


def mapped(ctx: Ctx, f: FuncInfo, c: ClassInfo) -> None:
    it = ctx.interp(lambda g, recv: g.cls is not None and (g.cls in c.project_mro() or c in g.cls.project_mro()) and g.name != "batches" or g.cls is None and g.module is c.module)
    r = it.run(f, c)
    for loc in it.set_iterations:
        ctx.bad("map", f"{f.short}: records in a set", loc, "records pass through a set: duplicates are dropped and the order is lost")
    ys = r.yields
    construct = f"{f.short}"
    loops = [y for y in ys if y.op == "for"]
    if len(ys) != 1 or len(loops) != 1 or len(loops[0].args) != 3:
        ctx.bad("map", f"{construct}: one loop over the batches", f.loc(), f"batches are not delivered by one complete loop over the source: {[show(y)[:100] for y in ys]}")
        return
    src, bv, items = loops[0].args
    ok = src.op == "call" and str(src.args[0]).endswith("DataSource.batches") and src.args[1] == T("attr", (T("param", ("self",)), "source"))
    ctx.check(ok, "map", f"{construct}: input", f.loc(), f"batches are read from {show(src)[:100]}")
    ctx.check(single(items, bv), "map", f"{construct}: one batch per batch", f.loc(), "a batch of the source yields no batch or several batches on some path")
    for v in leaves(items):
        ctx.check(one_to_one(v, bv), "map", f"{construct}: one record per record", f.loc(), f"the batch delivered does not have one record for each record of the batch read: {show(v)[:160]}")


def leaves(items: tuple) -> Iterator[T]:
    for i in items:
        if i.op == "item":
            yield i.args[0]
        elif i.op == "if":
            yield from leaves(i.args[1])
            yield from leaves(i.args[2])
        elif i.op == "for":
            yield from leaves(i.args[2])


# -- passing on


def covers(t: T, tok: T, pc: tuple = ()) -> bool:
    "A value that holds every record of a stream exactly once (on a path)."
    if one_to_one(t, tok):
        return True
    if t.op == "new":
        hits = [a for _, a in t.args[1] if mentions(a, tok)]
        return len(hits) == 1 and covers(hits[0], tok, pc)
    if t.op == "phi":
        a, b = t.args[0] in pc, neg(t.args[0]) in pc
        return (b or covers(t.args[1], tok, pc)) and (a or covers(t.args[2], tok, pc))
    return False


def mentions(t: T, tok: T) -> bool:
    return any(x == tok for x in walk(t))


def arguments(e: T) -> list[T]:
    if e.op == "call":
        return ([e.args[1]] if isinstance(e.args[1], T) else []) + [a for _, a in e.args[2]]
    if e.op == "new":
        return [a for _, a in e.args[1]]
    return []


def logging_call(e: T) -> bool:
    return e.op == "call" and isinstance(e.args[0], str) and e.args[0].lstrip(".") in LOGGERS


def observes(e: T, tok: T) -> bool:
    "The event only looks at the length or the type of the stream."
    if logging_call(e):
        return True
    for a in arguments(e):
        if not mentions(a, tok):
            continue
        inner = [x for x in walk(a) if x.op == "len" or x.op == "call" and x.args[0] in ("len", "isinstance", "type", "bool")]
        if not any(mentions(x, tok) for x in inner):
            return False
    return True


def result_stream(ctx: Ctx, e: T) -> bool:
    "The call makes another stream of the one it is given."
    if e.op == "new":
        c = e.args[0]
        return any(k.name == "DataSource" for k in c.project_mro())
    f = e.meta
    if isinstance(f, FuncInfo):
        r = f.node.returns if hasattr(f.node, "returns") else None
        names = {n.id for n in ast.walk(r) if isinstance(n, ast.Name)} if r is not None else set()
        return bool(names & STREAMS)
    return False


def flow(ctx: Ctx, f: FuncInfo, c: Optional[ClassInfo]) -> None:
    ctx.analysed(f)

    def inline(g: FuncInfo, recv: Optional[T]) -> bool:
        if g.name in CONTRACT:
            return False
        if g.cls is not None:
            return c is not None and g.cls in c.project_mro() and g.name.startswith("_")
        return g.module is f.module and bool(stream_params(g)) and g.name != "to_data_source" or g.parent is not None

    r = ctx.run(f, c, inline=inline)
    if not r.returns and not r.yields:
        ctx.notes.append(f"{f.short}: never returns normally")
        return
    ctx.count("operations that take a stream")
    for p in stream_params(f):
        tok = T("param", (p,))
        token(ctx, f, r, tok, p, 0)


def token(ctx: Ctx, f: FuncInfo, r, tok: T, name: str, depth: int, maker: Optional[T] = None) -> None:
    if depth > 6:
        return
    construct = f"{f.short}: {name}"
    uses: dict[T, T] = {}
    values = [v for v, _ in r.returns if not (v.op == "const" and v.args[0] is None)]
    if values and all(covers(v, tok) for v in values):
        ctx.ok("pass", f"{construct}: returned", f.loc())
        return
    made = event_terms(r)
    for evs, pc, loops in ways_of(r, tok, made, maker):
        calls = {(x.args[0], x.loc) for e in evs for a in arguments(e) for x in walk(a) if x.op == "call"}
        real = [l for l in loops if not all((e.args[0], e.loc) in calls for e in flatten(l.args[2]) if e.op == "call") or not evs]
        n = len(evs) + len(real)
        if n == 0 and known_empty(pc, tok):
            continue
        ctx.check(n >= 1, "pass", f"{construct}: used", f.loc(), f"on a path that returns normally ({', '.join(show(x)[:60] for x in pc) or 'always'}) the records are not used")
        ctx.check(n <= 1, "pass", f"{construct}: used once", (evs[-1].loc if evs else None) or f.loc(), "the records are read more than once: a second pass finds none of a stream already read, or delivers them again")
        for e in evs:
            direct = e.args[1] == tok if e.op == "call" and e.args[1] is not None else False
            direct = direct or any(covers(a, tok, pc) for a in arguments(e)) or e.op == "new" and covers(T("new", e.args), tok, pc)
            ctx.check(bool(direct), "pass", f"{construct}: complete", e.loc or f.loc(), f"only a part or a selection of the records is passed on: {show(e)[:160]}")
            uses[e] = e
        for l in real:
            body(ctx, f, l.args[2], l.args[1], construct, l, made)
            ctx.check(len(l.args) == 3, "pass", f"{construct}: whole", f.loc(), "the loop over the records ends early")
            ctx.check(one_to_one(l.args[0], tok), "pass", f"{construct}: order", f.loc(), f"the records are iterated as {show(l.args[0])[:100]}")
    for e in uses:
        t2 = T(e.op, e.args)
        if is_batches(e):
            ctx.count("batch streams")
            token(ctx, f, r, t2, f"batches of {name}", depth + 1, t2)
        elif result_stream(ctx, e):
            token(ctx, f, r, t2, f"records made of {name}", depth + 1, t2)


def event_terms(r) -> set[T]:
    out: set[T] = set()
    for o in r.outcomes:
        for e in flatten(o.state.heap[0].args[1]):
            if e.op in ("call", "new"):
                out.add(T(e.op, e.args))
    return out


def direct(t: T, tok: T, made: set[T], top: bool = True) -> bool:
    "The stream occurs in a value other than within the value of another operation that was given it."
    if t == tok:
        return True
    if t.op in ("call", "new") and t in made:
        return False
    return any(direct(x, tok, made, False) for x in children(t))


def is_batches(e: T) -> bool:
    return e.op == "call" and isinstance(e.args[0], str) and e.args[0].endswith("DataSource.batches")


def ways_of(r, tok: T, made: set[T], maker: Optional[T]) -> list[tuple[list[T], tuple, list[T]]]:
    "Per path that returns normally: events outside loops over the stream, conditions, and loops over the stream."

    def keep(e: T) -> bool:
        if e.op not in ("call", "new"):
            return False
        if maker is not None and T(e.op, e.args) == maker:
            return True
        return not logging_call(e) and any(direct(a, tok, made) for a in arguments(e)) and not observes(e, tok)

    def go(items: tuple, acc: list[tuple[list[T], tuple, list[T]]]) -> list[tuple[list[T], tuple, list[T]]]:
        for i in items:
            if i.op == "for":
                if stream_of(i.args[0], tok):
                    acc = [(e, pc, l + [i]) for e, pc, l in acc]
                else:
                    once = go(i.args[2], acc)
                    acc = once + go(i.args[2], once)
            elif i.op == "if":
                a = go(i.args[1], [(e, pc + (i.args[0],), l) for e, pc, l in acc if neg(i.args[0]) not in pc])
                b = go(i.args[2], [(e, pc + (neg(i.args[0]),), l) for e, pc, l in acc if i.args[0] not in pc])
                acc = a + b
                if len(acc) > 2048:
                    raise AnalysisError("too many paths")
            elif i.op != "discard" and keep(i):
                acc = [(e + [i], pc, l) for e, pc, l in acc]
        return acc

    out: list[tuple[list[T], tuple, list[T]]] = []
    seen = set()
    for o in r.outcomes:
        if o.kind not in ("fall", "return"):
            continue
        for e, pc, l in go(prune(o.state.heap[0].args[1], tok, keep), [([], tuple(o.state.pc), [])]):
            if maker is not None:
                if not any(T(x.op, x.args) == maker for x in e):
                    continue
                e = [x for x in e if T(x.op, x.args) != maker]
            k = (tuple(id(x) for x in e), tuple(id(x) for x in l), pc)
            if k not in seen:
                seen.add(k)
                out.append((e, pc, l))
    return out


def prune(items: tuple, tok: T, keep) -> tuple:
    out = []
    for i in items:
        if i.op == "if":
            a, b = prune(i.args[1], tok, keep), prune(i.args[2], tok, keep)
            if a or b:
                out.append(T("if", (i.args[0], a, b)))
        elif i.op == "for":
            if stream_of(i.args[0], tok) or prune(i.args[2], tok, keep):
                out.append(i)
        elif i.op != "discard" and keep(i):
            out.append(i)
    return tuple(out)


def stream_of(src: T, tok: T) -> bool:
    "The loop runs over the stream itself (or its elements in some other order or selection)."
    if src == tok:
        return True
    if src.op in ("copy", "listof", "tupleof", "setof", "sorted", "reversed", "sub", "pos") and isinstance(src.args[0], T):
        return stream_of(src.args[0], tok)
    if src.op == "call" and src.args[0] in ("itertools.islice", "iter", "filter", "map"):
        return any(stream_of(a, tok) for _, a in src.args[2])
    if src.op == "seq":
        return any(i.op == "for" and stream_of(i.args[0], tok) for i in src.args[1])
    return False


def known_empty(pc: tuple, tok: T) -> bool:
    for l, pos in implied(pc):
        if l.op == "len" and l.args[0] == tok and not pos:
            return True
        if l == tok and not pos:
            return True
        if l.op in ("cmp", "==") and mentions(l, tok) and any(x.op == "len" for x in walk(l)) and any(x.op == "const" and x.args[0] == 0 for x in walk(l)):
            return pos
        if l.op == "call" and l.args[0] in ("isinstance",) and not pos and False:
            return True
        if l.op == "isnone" and l.args[0] == tok and pos:
            return True
    return False


def body(ctx: Ctx, f: FuncInfo, items: tuple, bv: T, construct: str, loop: T, made: set[T]) -> None:
    "A loop over batches (or records): each is given to exactly one operation, whole, on every path."
    ctx.count("batch loops")

    def delivering(e: T) -> bool:
        return e.op == "call" and not logging_call(e) and any(direct(a, bv, made) for a in arguments(e)) and not observes(e, bv)

    def run(its: tuple, acc: list[tuple[int, tuple]]) -> list[tuple[int, tuple]]:
        for k, i in enumerate(its):
            if i.op == "for":
                if stream_of(i.args[0], bv):
                    later = {(x.args[0], x.loc) for o in flatten(its[k + 1:]) if delivering(o) for a in arguments(o) for x in walk(a) if x.op == "call"}
                    if later and all((e.args[0], e.loc) in later for e in flatten(i.args[2]) if e.op == "call"):
                        continue  # computes what is passed on later
                    full = len(i.args) == 3 and one_to_one(i.args[0], bv)
                    ctx.check(full, "pass", f"{construct}: records of a batch", f.loc(), f"the records of a batch are iterated as {show(i.args[0])[:100]}")
                    every = all(n >= 1 for n, _ in record_paths(i.args[2], i.args[1]))
                    ctx.check(every, "pass", f"{construct}: each record of a batch", f.loc(), "a record of a batch is skipped on some path")
                    acc = [(n + 1, pc) for n, pc in acc]
                elif any(delivering(e) for e in flatten(i.args[2])):
                    acc = acc + run(i.args[2], acc)
            elif i.op == "if":
                a = run(i.args[1], [(n, pc + (i.args[0],)) for n, pc in acc])
                b = run(i.args[2], [(n, pc + (neg(i.args[0]),)) for n, pc in acc])
                acc = a + b
            elif i.op != "discard" and delivering(i):
                if scalar(loop):
                    acc = [(n + 1, pc) for n, pc in acc]
                    continue
                ok = any(covers(a, bv) for a in arguments(i))
                ctx.check(ok, "pass", f"{construct}: batch passed whole", i.loc or f.loc(), f"only a part or a selection of a batch is passed on: {show(i)[:160]}")
                acc = [(n + 1, pc) for n, pc in acc]
            acc = list(dict.fromkeys(acc))
        return acc

    for n, pc in run(items, [(0, ())]):
        if n == 0 and known_empty(pc, bv):
            continue
        ctx.check(n >= 1, "pass", f"{construct}: each batch", f.loc(), f"a batch is not passed on if {', '.join(show(x)[:80] for x in pc) or 'the loop runs'}")
        ctx.check(n <= 1 or scalar(loop), "pass", f"{construct}: each batch once", f.loc(), "a batch is passed on more than once")


def scalar(loop: T) -> bool:
    "The loop runs over single records rather than batches."
    return not any(is_batches(x) for x in walk(loop.args[0]))


def record_paths(items: tuple, rec: T) -> list[tuple[int, tuple]]:
    acc: list[tuple[int, tuple]] = [(0, ())]
    for i in items:
        if i.op == "if":
            a = record_paths(i.args[1], rec)
            b = record_paths(i.args[2], rec)
            acc = [(n + m, ()) for n, _ in acc for m, _ in a + b]
        elif i.op == "for":
            if any(mentions(i.args[0], rec) for _ in (1,)):
                acc = [(n + 1, pc) for n, pc in acc]
        elif i.op in ("call", "new", "setitem") and not logging_call(i) and any(mentions(a, rec) for a in (arguments(i) if i.op != "setitem" else list(i.args))):
            acc = [(n + 1, pc) for n, pc in acc]
        acc = list(set(acc))
    return acc


def flatten(its: Iterable[T]) -> Iterator[T]:
    for i in its:
        if i.op == "for":
            yield from flatten(i.args[2])
        elif i.op == "if":
            yield from flatten(i.args[1])
            yield from flatten(i.args[2])
        else:
            yield i
