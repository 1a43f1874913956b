"""
Override compatibility over the class hierarchy. For every method defined in a project class and redefined in a project class
derived from it: both are of the same nature (property, plain function, coroutine — including one dispatched to a worker
thread — or asynchronous generator; static, class or instance method); positional parameters keep count and order; a
parameter keeps its name if the library passes it by keyword anywhere; keyword-only parameters are kept; parameters that can be
omitted can still be omitted; additional parameters can be omitted. Constructors in a class family that is instantiated through a
class-valued property (object factory, engine) accept every call made through that property. Calls through `self` and
`super()` bind to every implementation they may reach.
"""

import ast

from ..calls import Calls, self_name
from ..framework import Ctx
from ..program import ClassInfo, FuncInfo, walk_own
from ..sigs import binds, call_shape, constructor, nature, sig_of
from ..types import alts, strip_none

ASSUMPTIONS = ["class hierarchy as written in the source; no method is replaced at run time"]


def kind(f: FuncInfo) -> str:
    return "static" if f.is_static else "class" if f.is_classmethod else "instance"


def check(ctx: Ctx) -> None:
    prog = ctx.prog
    calls = Calls(prog)
    # keyword names passed to a method of a given name anywhere in the library
    passed: dict[str, set[str]] = {}
    for f in prog.functions():
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if name:
                    passed.setdefault(name, set()).update(k.arg for k in n.keywords if k.arg)
                    if any(k.arg is None for k in n.keywords):
                        passed[name].add("**")
    for c in prog.classes():
        for name, m in sorted(c.methods.items()):
            if name.startswith("__") and name.endswith("__"):
                continue
            bases: list[FuncInfo] = []
            for k in c.project_mro()[1:]:
                if name in k.methods:
                    bases.append(k.methods[name])
            for b in bases:
                ctx.count("override pairs")
                ctx.analysed(m)
                ctx.analysed(b)
                compare(ctx, b, m, passed.get(name, set()))
    calls_bind(ctx, calls)
    families(ctx)
    ctx.minimum("override pairs", 150)
    ctx.minimum("self and super calls", 150)
    ctx.minimum("factory calls", 20)


def compare(ctx: Ctx, b: FuncInfo, m: FuncInfo, passed: set[str]) -> None:
    what = f"{m.short} overrides {b.short}"
    nb, nm = nature(b), nature(m)
    only_raises = is_stub(m)
    ctx.check(nb == nm, "same-nature", what, m.loc(), f"{b.short} is a {nb}, {m.short} is a {nm}")
    ctx.check(kind(b) == kind(m), "same-nature", what + " (binding)", m.loc(), f"{b.short} is a {kind(b)} method, {m.short} a {kind(m)} method")
    sb, sm = sig_of(b), sig_of(m)
    pos_ok = True
    for i, p in enumerate(sb.positional):
        if i >= len(sm.positional):
            if not sm.vararg and p not in sm.kwonly:
                pos_ok = ctx.check(False, "positional-parameters", f"{what}: {p}", m.loc(), f"positional parameter `{p}` of {b.short} is not accepted by {m.short}")
            elif p in sm.kwonly and not sm.vararg:
                pos_ok = ctx.check(False, "positional-parameters", f"{what}: {p}", m.loc(), f"parameter `{p}` can be passed by position to {b.short} but not to {m.short}")
            continue
        q = sm.positional[i]
        if p == q:
            ctx.ok("positional-parameters", f"{what}: {p}", m.loc())
        elif p in sm.positional or q in sb.positional:
            pos_ok = ctx.check(False, "parameter-order", f"{what}: {p}", m.loc(), f"parameter {i + 1} of {b.short} is `{p}`, of {m.short} `{q}`")
        else:
            kw = (p in passed or "**" in passed) and p not in sb.posonly and not sm.kwarg
            pos_ok = ctx.check(not kw, "parameter-name", f"{what}: {p}", m.loc(), f"parameter `{p}` of {b.short}, which the library passes by keyword, is called `{q}` in {m.short}")
        if p in sb.optional:
            ctx.check(q in sm.optional, "optional-parameter", f"{what}: {p}", m.loc(), f"parameter `{p}` can be omitted in a call of {b.short} but not of {m.short}")
    for k in sb.kwonly:
        ok = k in sm.kwonly or k in sm.positional or sm.kwarg
        ctx.check(ok, "keyword-parameter", f"{what}: {k}", m.loc(), f"keyword parameter `{k}` of {b.short} is not accepted by {m.short}")
        if ok and k in sb.optional and not (sm.kwarg and k not in sm.kwonly + sm.positional):
            ctx.check(k in sm.optional, "optional-parameter", f"{what}: {k}", m.loc(), f"keyword parameter `{k}` can be omitted in a call of {b.short} but not of {m.short}")
    for q in sm.positional[len(sb.positional):] + sm.kwonly:
        if q not in sb.kwonly and q not in sb.positional:
            ctx.check(q in sm.optional, "extra-parameter", f"{what}: {q}", m.loc(), f"{m.short} requires an additional argument `{q}` that callers of {b.short} do not pass")
    if sb.vararg:
        ctx.check(sm.vararg, "variadic", what, m.loc(), f"{b.short} accepts any number of positional arguments")
    if sb.kwarg:
        ctx.check(sm.kwarg, "variadic", what + " (keywords)", m.loc(), f"{b.short} accepts any keyword")
    _ = pos_ok, only_raises


def is_stub(f: FuncInfo) -> bool:
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]  # type: ignore
    return len(body) == 1 and isinstance(body[0], ast.Raise)


def calls_bind(ctx: Ctx, calls: Calls) -> None:
    for f in ctx.prog.functions():
        cls = calls.owner_class(f)
        if cls is None:
            continue
        me = self_name(f)
        for n in walk_own(f.node):
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute):
                continue
            v = n.func.value
            is_super = isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super"
            is_self = isinstance(v, ast.Name) and v.id == me
            if not is_super and not is_self:
                continue
            targets = calls.resolve(f, n)
            for g in targets:
                if g.is_property:
                    continue
                s = constructor(g.cls, ctx.prog) if g.name == "__init__" else sig_of(g)
                why = binds(s, *call_shape(n))  # type: ignore
                ctx.count("self and super calls")
                ctx.check(why is None, "call-binds", f"{f.short} -> {g.short}", f.loc(n), f"call of `{n.func.attr}` does not bind to {g.short}: {why}")


def families(ctx: Ctx) -> None:
    "Constructors called through a class-valued property or method."
    prog = ctx.prog
    # class-valued properties by name -> possible classes
    values: dict[str, set[ClassInfo]] = {}
    declared: dict[str, list[tuple[ClassInfo, ClassInfo, FuncInfo]]] = {}
    for c in prog.classes():
        for name, m in c.methods.items():
            if nature(m) not in ("property", "sync") or is_stub(m):
                continue
            ret = ctx.tr.annot(m.module, m.node.returns)  # type: ignore
            tys = [a for a in alts(strip_none(ret)) if a.kind == "type" and a.args and a.args[0].kind == "cls"]
            if not tys:
                continue
            want = tys[0].args[0].ref
            for k in [c]:
                r = ctx.run(m, k)
                for cand in classes_in(r.value):
                    values.setdefault(name, set()).add(cand)
                    declared.setdefault(name, []).append((cand, want, m))
    for name, lst in sorted(declared.items()):
        for cand, want, m in lst:
            # the declared kind of the outermost base definition
            root = m
            for k in m.cls.project_mro():  # type: ignore
                if name in k.methods:
                    root = k.methods[name]
            rt = [a for a in alts(strip_none(ctx.tr.annot(root.module, root.node.returns))) if a.kind == "type" and a.args and a.args[0].kind == "cls"]  # type: ignore
            base = rt[0].args[0].ref if rt else want
            ctx.check(cand.is_subclass_of(base), "class-valued-property", f"{m.short} -> {cand.name}", m.loc(), f"{m.short} supplies {cand.name}, which is not a {base.name}")
    for f in prog.functions():
        local: dict[str, str] = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                if isinstance(v, ast.Call):
                    v = v.func
                if isinstance(v, ast.Attribute) and v.attr in values:
                    local[n.targets[0].id] = v.attr
        for n in walk_own(f.node):
            if not isinstance(n, ast.Call):
                continue
            prop = n.func.attr if isinstance(n.func, ast.Attribute) and n.func.attr in values else local.get(n.func.id) if isinstance(n.func, ast.Name) else None
            if isinstance(n.func, ast.Call) and isinstance(n.func.func, ast.Attribute) and n.func.func.attr in values:
                prop = n.func.func.attr
            if prop is None:
                continue
            if isinstance(n.func, ast.Attribute) and not any(m[2].is_property for m in declared[prop]):
                continue  # a call of the accessor itself
            shape = call_shape(n)
            for cand in sorted(values[prop], key=lambda x: x.qualname):
                s = constructor(cand, prog)
                if s is None:
                    continue
                why = binds(s, *shape)
                ctx.count("factory calls")
                ctx.check(why is None, "factory-constructor", f"{f.short} -> {prop}={cand.name}", f.loc(n), f"constructor of {cand.name}, supplied as `{prop}`, does not accept the call: {why}")


def classes_in(t) -> list[ClassInfo]:
    out: list[ClassInfo] = []
    work = [t]
    while work:
        x = work.pop()
        if x.op == "class":
            out.append(x.args[0])
        elif x.op == "phi":
            work.extend(x.args[1:])
    return out
