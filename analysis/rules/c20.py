"""
Evaluates every function that assigns the tracked schema state of a generator (found by scanning all stores to an attribute `state`
and following private helpers to their callers), with `finally` blocks also run for unhandled exceptions and with the attribute
versioned by the last call that may assign it, and examines the order of events on each path.

* `generate`: in the generator, the state is assigned only the target of a change script that has been generated before on the same
  path, from the state tracked until then; the text returned is that script.
* `source`: the script is generated from the tracked state to the given target.
* `discover`: discovery starts from a new, empty catalog and adds only what the catalog queries returned.
* `synchronize`: the target is built before discovery, the script leads from the discovered state to the target, the script itself is
  executed, and the state becomes the target only on a path on which the script was executed and completed, or there was none.
* `writer`: no other function assigns or modifies the tracked state.
"""

from __future__ import annotations

import ast
from typing import Iterable, Optional

from ..calls import Calls
from ..common import method_name, paths, relevant
from ..framework import Ctx
from ..program import ClassInfo, FuncInfo, walk_own
from ..terms import T, neg, show, walk

ASSUMPTIONS = [
    "a call that returns normally has completed: the driver reports a failed statement by raising",
    "attributes are not assigned by setattr(), __dict__ or exec",
    "an exception may be raised by any call; a handler or `finally` block starts from the state before its `try` statement",
]

STATE = "state"
OPAQUE = {
    "BaseGenerator": {"create", "drop"},
    "Explorer": {"discover", "get_namespace", "get_namespace_current", "synchronize"},
    "DataclassConverter": None,
    "Mutator": None,
    "BaseContext": None,
    "Catalog": None,
}


def stores(f: FuncInfo) -> list[ast.AST]:
    "Assignments of an attribute `state`, or calls of a method on it that modifies it."
    out: list[ast.AST] = []
    for n in walk_own(f.node):
        if isinstance(n, ast.Attribute) and n.attr == STATE and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.append(n)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("merge", "update", "clear", "add", "remove", "append", "extend"):
            if any(isinstance(x, ast.Attribute) and x.attr == STATE for x in ast.walk(n.func.value)):
                out.append(n)
    return out


def check(ctx: Ctx) -> None:
    prog = ctx.prog
    gen = prog.find_class("BaseGenerator")
    exp = prog.find_class("Explorer")
    calls = Calls(prog)
    funcs = list(prog.functions())
    callers: dict[int, list[FuncInfo]] = {}
    for f in funcs:
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                for g in calls.resolve(f, n):
                    callers.setdefault(id(g.node), []).append(f)

    base_names = {gen.name} | {c.name for c in gen.all_subclasses()}

    def concerns(f: FuncInfo) -> bool:
        "The attribute is that of a generator: the receiver is `self` of a generator, or of a type that is one."
        owner = calls.owner_class(f)
        sites = stores(f)
        if not sites:
            return False
        if owner is not None and owner.name not in base_names:
            # another class with an attribute of that name, unless the receiver is something else than its own `self`
            return any(not (isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self") for x in sites)
        return True

    writers = {id(f.node): f for f in funcs if concerns(f)}
    # transitive: what an opaque call may assign
    effects = set(writers)
    work = list(writers.values())
    while work:
        f = work.pop()
        for g in callers.get(id(f.node), []):
            if id(g.node) not in effects:
                effects.add(id(g.node))
                work.append(g)

    hierarchy: dict[str, Optional[set[str]]] = {}
    for root, names in OPAQUE.items():
        c = prog.find_class(root)
        for k in [c] + c.all_subclasses():
            hierarchy[k.name] = names

    def inline(f: FuncInfo, recv: Optional[T]) -> bool:
        if f.cls is None:
            return f.module is gen.module and id(f.node) in effects
        if f.cls.name not in hierarchy:
            return False
        names = hierarchy[f.cls.name]
        if names is None:
            return False
        return f.name not in names and (id(f.node) in effects or f.name in ("get_mutate_stmt", "reset") or f.name.startswith("_"))

    visited: set[str] = set()

    def run(f: FuncInfo, cls: Optional[ClassInfo]):
        it = ctx.interp(inline)
        it.unwind = True
        it.effects = lambda g: (STATE,) if id(g.node) in effects else ()
        r = it.run(f, cls)
        visited.update(it.visited)
        ctx.functions.update(q[len("pysqlsync."):] for q in it.visited if q.startswith("pysqlsync."))
        return r

    def generator_state(e: T) -> bool:
        return e.op == "setattr" and e.args[1] == STATE and (e.args[0] == T("param", ("self",)) or "generator" in show(e.args[0]))

    def kind(e: T) -> Optional[str]:
        if generator_state(e):
            return "set"
        if e.op == "call" and isinstance(e.args[0], str):
            n = e.args[0].removeprefix("super:")
            if n == "Mutator.mutate_catalog_stmt":
                return "mutate"
            if n.startswith("BaseContext.") and method_name(e) in ("execute", "_execute"):
                return "execute"
            if n in ("BaseGenerator.create", "BaseGenerator.drop", "Explorer.discover"):
                return n.split(".")[1]
            if n == "Catalog.merge":
                return "merge"
        return None

    def traces(r) -> list[list[tuple[T, tuple]]]:
        out = paths(relevant(r.trace, lambda e: kind(e) is not None))
        for o in r.raises:
            out += paths(relevant(o.state.heap[0].args[1], lambda e: kind(e) is not None))
        return out

    def args(e: T) -> dict[str, T]:
        return dict(e.args[2])

    # generator: create, drop and any other public operation
    for c in [gen] + gen.all_subclasses():
        for f in c.methods.values():
            if f.name in ("__init__", "reset") or f.name.startswith("_"):
                continue
            if id(f.node) not in effects:
                continue
            ctx.analysed(f)
            r = run(f, c)
            ctx.count("generator operations that assign the state")
            values = set()
            for tr in traces(r):
                done: list[T] = []
                cur = T("attr", (T("param", ("self",)), STATE))
                for e, pc in tr:
                    k = kind(e)
                    if k == "mutate":
                        done.append(e)
                        a = args(e)
                        src = a.get("source")
                        ctx.check(src == cur, "generate", f"{f.short}: source of the script", e.loc or f.loc(),
                                  f"the script is generated from {show(src)[:120] if src else 'nothing'}, not from the tracked state")
                    elif k == "set":
                        v = e.args[2]
                        good = any(args(m).get("target") == v for m in done)
                        ctx.check(good, "generate", f"{f.short}: {show(e.args[0])}.state", e.loc or f.loc(),
                                  "the tracked state is assigned before (or without) the change script to it has been generated")
                        cur = v
                        values.update(id(m) for m in done)
            for tr in paths(relevant(r.trace, lambda e: kind(e) in ("mutate", "set"))):
                ks = [kind(e) for e, _ in tr]
                if "mutate" in ks:
                    ctx.check("set" in ks, "generate", f"{f.short}: update", f.loc(), "a change script is returned but the state it leads to is not tracked")
            for v, pc in r.returns:
                ok = any(x.op == "call" and x.args[0] == "Mutator.mutate_catalog_stmt" for x in walk(v))
                ctx.check(ok, "generate", f"{f.short}: result", f.loc(), f"returns {show(v)[:120]}, which is not the change script")
    ctx.minimum("generator operations that assign the state", 2)

    # get_mutate_stmt
    for c in [gen] + [x for x in gen.all_subclasses() if "get_mutate_stmt" in x.methods]:
        f = c.find_method("get_mutate_stmt")
        if f is None:
            continue
        ctx.analysed(f)
        r = run(f, c)
        for v, _ in r.returns:
            good = v.op == "call" and v.args[0] == "Mutator.mutate_catalog_stmt" and args(v).get("source") == T("attr", (T("param", ("self",)), STATE)) and args(v).get("target") == T("param", ("target",))
            ctx.check(good, "source", f.short, f.loc(), f"generates {show(v)[:160]}, not the script from the tracked state to the target")

    # reset
    for c in [gen] + [x for x in gen.all_subclasses() if "reset" in x.methods]:
        f = c.find_method("reset")
        if f is None:
            continue
        ctx.analysed(f)
        r = run(f, c)
        sets = [e for tr in traces(r) for e, _ in tr if kind(e) == "set"]
        good = bool(sets) and all(fresh(e.args[2]) for e in sets)
        ctx.check(good, "discover", f"{f.short}: new state", f.loc(), "reset does not assign a new, empty catalog")

    # discovery
    for c in [exp] + exp.all_subclasses():
        f = c.methods.get("discover")
        if f is None:
            continue
        ctx.analysed(f)
        r = run(f, c)
        merged = 0
        for tr in traces(r):
            started = False
            for e, pc in tr:
                k = kind(e)
                if k == "set":
                    ctx.check(fresh(e.args[2]) or discovered(e.args[2]), "discover", f"{f.short}: start", e.loc or f.loc(),
                              f"the tracked state is set to {show(e.args[2])[:120]} during discovery")
                    started = True
                elif k in ("create", "drop"):
                    ctx.bad("discover", f"{f.short}: {k}", e.loc or f.loc(), "discovery replaces the tracked state with a target")
                elif k == "merge":
                    merged += 1
                    ctx.check(started, "discover", f"{f.short}: merge into an empty catalog", e.loc or f.loc(),
                              "discovered objects are merged into the state tracked before")
                    ctx.check(discovered(args(e).get("op", T("unknown"))), "discover", f"{f.short}: what is merged", e.loc or f.loc(),
                              f"{show(args(e).get('op', T('unknown')))[:160]} does not come from catalog queries")
        ctx.check(merged > 0 or any(kind(e) == "set" and discovered(e.args[2]) for tr in traces(r) for e, _ in tr), "discover", f"{f.short}: result", f.loc(),
                  "what is discovered does not become the tracked state")
        ctx.count("discovery functions")
    ctx.minimum("discovery functions", 1)

    # synchronization
    for c in [exp] + exp.all_subclasses():
        f = c.methods.get("synchronize")
        if f is None:
            continue
        ctx.analysed(f)
        r = run(f, c)
        ctx.count("synchronization functions")
        trs = traces(r)
        seen_set = seen_exec = False
        for tr in trs:
            script: Optional[T] = None
            found = False
            executed: list[T] = []
            sanctioned: set = set()
            for e, pc in tr:
                k = kind(e)
                if k == "create":
                    ctx.check(not found, "synchronize", f"{f.short}: target before discovery", e.loc or f.loc(),
                              "the target is generated after discovery, so that the tracked state is not the discovered one")
                elif k == "discover":
                    found = True
                elif k == "mutate":
                    script = e
                    a = args(e)
                    ctx.check(is_source(a.get("source"), found, tr), "synchronize", f"{f.short}: source", e.loc or f.loc(),
                              f"the script starts from {show(a.get('source', T('unknown')))[:160]}, not from the discovered state")
                    ctx.check(is_target(a.get("target")), "synchronize", f"{f.short}: target", e.loc or f.loc(),
                              f"the script leads to {show(a.get('target', T('unknown')))[:160]}, not to the state built from the entity classes")
                elif k == "execute":
                    st = args(e).get("statement")
                    seen_exec = True
                    good = script is not None and st is not None and call_eq(st, script)
                    ctx.check(good, "synchronize", f"{f.short}: statement executed", e.loc or f.loc(), "what is executed is not the change script")
                    if good:
                        executed.append(st)
                elif k == "set":
                    v = e.args[2]
                    if fresh(v):
                        # a reset: before the target or as the start of discovery
                        ctx.check(script is None, "synchronize", f"{f.short}: reset", e.loc or f.loc(), "the discovered state is discarded after the script was generated")
                        continue
                    seen_set = True
                    if script is None:
                        # an inlined `create`
                        ctx.check(is_target(v) and not found, "synchronize", f"{f.short}: state := target", e.loc or f.loc(),
                                  "the tracked state is assigned before a change script was generated")
                        continue
                    nothing = none_condition(script, pc)
                    ctx.check(bool(executed) or nothing, "synchronize", f"{f.short}: state := target", e.loc or f.loc(),
                              "the tracked state becomes the target on a path on which the change script was not executed to completion")
                    ctx.check(v == args(script).get("target"), "synchronize", f"{f.short}: value of the state", e.loc or f.loc(),
                              f"the tracked state becomes {show(v)[:120]}, which is not the target of the script executed")
        ctx.check(seen_exec, "synchronize", f"{f.short}: execution", f.loc(), "the change script is never executed")
        ctx.check(seen_set, "synchronize", f"{f.short}: completion", f.loc(), "the tracked state never becomes the target")
    ctx.minimum("synchronization functions", 1)

    # any other writer
    for f in writers.values():
        ctx.count("functions that assign the tracked state")
        owner = calls.owner_class(f)
        known = f.qualname in visited or f.short in visited or any(q.endswith(f.short) for q in visited) or f.name == "__init__"
        known = known or (owner is not None and owner.name in base_names and f.name == "reset")
        ctx.check(known, "writer", f.short, f.loc(), "assigns the tracked state outside script generation, discovery and synchronization")


def fresh(v: T) -> bool:
    return v.op == "new" and v.args[0].name == "Catalog" and all(x.op == "seq" and not x.args[1] for _, x in v.args[1])


def discovered(v: T) -> bool:
    "A catalog of the results of namespace queries only."
    if v.op != "new" or v.args[0].name != "Catalog":
        return False
    leaves = [x for _, a in v.args[1] for x in elements(a)]
    return bool(leaves) and all(x.op == "call" and str(x.args[0]).removeprefix("super:") in ("Explorer.get_namespace", "Explorer.get_namespace_current") for x in leaves)


def elements(a: T) -> Iterable[T]:
    if a.op == "seq":
        for i in a.args[1]:
            yield from elements(i)
    elif a.op == "item":
        yield from elements(a.args[0])
    elif a.op == "for":
        for i in a.args[2]:
            yield from elements(i)
    elif a.op == "if":
        for i in a.args[1] + a.args[2]:
            yield from elements(i)
    elif a.op == "phi":
        yield from elements(a.args[1])
        yield from elements(a.args[2])
    else:
        yield a


def by(v: Optional[T]) -> Optional[T]:
    if v is not None and v.op == "written" and v.args[2].op == "by":
        return v.args[2].args[0]
    return None


def is_source(v: Optional[T], found: bool, tr: list) -> bool:
    c = by(v)
    if c is not None:
        return c.args[0] == "Explorer.discover"
    return v is not None and fresh(v) and any(e.op == "call" and e.args[0] == "Catalog.merge" and e.args[1] == v for e, _ in tr)


def is_target(v: Optional[T]) -> bool:
    if v is None:
        return False
    c = by(v)
    if c is not None:
        return c.args[0] == "BaseGenerator.create" and any(x.op == "call" for _, a in c.args[2] for x in [a]) or (c.args[0] == "BaseGenerator.create" and bool(c.args[2]))
    return v.op == "call" and v.args[0] in ("DataclassConverter.dataclasses_to_catalog", "DataclassConverter.modules_to_catalog")


def call_eq(a: T, b: T) -> bool:
    return a.op == "call" and a.args == b.args


def none_condition(script: T, pc: tuple) -> bool:
    "The path is one on which there is no script."
    for c in pc:
        for x in (c,):
            if x.op == "isnone" and call_eq(x.args[0], script):
                return True
            if x.op == "not" and call_eq(x.args[0], script):
                return True
    return False
