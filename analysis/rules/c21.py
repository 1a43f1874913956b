"""
Completeness rule over the class hierarchy and abstract evaluation of the engine accessors. For each dialect package with an
`engine` module: exactly one class matches the name pattern the registry looks for, it leaves no abstract member
unimplemented, its `name` evaluates to the constant name of its directory, and each of its three accessors evaluates to a class
that derives from the right base, belongs to the same dialect (or to a dialect it inherits from, where it defines none of
its own), and leaves no abstract member unimplemented (an accessor may raise NotImplementedError instead). Every other class
constructed anywhere in the library likewise implements all abstract members. The factory methods of the base engine wire the
three accessors, and the registry functions are evaluated: a taken name raises before being stored, an unknown name raises,
a known one yields the registered object under the name given; each operation of an unavailable engine raises.
"""

import ast
import re

from ..framework import Ctx, events
from ..program import AnalysisError, ClassInfo, FuncInfo, walk_own
from ..terms import T, neg, show, walk
from .c16 import unavailable_raises

ASSUMPTIONS = ["the registry selects the class whose name matches \\w+Engine in the engine module of a dialect"]
ACCESSORS = {"get_generator_type": "BaseGenerator", "get_connection_type": "BaseConnection", "get_explorer_type": "Explorer"}
# dialects that generate SQL only; they supply neither connection nor explorer
# database servers whose catalog is that of another one
DERIVED = {("redshift", "postgresql")}
GENERATE_ONLY = {"delta", "snowflake"}


def effective_abstract(f: FuncInfo) -> bool:
    return f.is_abstract


def missing(c: ClassInfo) -> list[FuncInfo]:
    "Abstract members not implemented by the class."
    names: set[str] = set()
    out = []
    for k in c.project_mro():
        for n, m in k.methods.items():
            if n in names:
                continue
            names.add(n)
            if effective_abstract(m):
                out.append(m)
        for n in k.values:
            names.add(n)
    return out


def real_missing(c: ClassInfo) -> list[FuncInfo]:
    "Only classes whose metaclass enforces abstract members, or whose abstract member has no usable body."
    return missing(c)


def classes_of(t: T) -> list[T]:
    if t.op == "phi":
        return classes_of(t.args[1]) + classes_of(t.args[2])
    return [t]


def check(ctx: Ctx) -> None:
    unavailable_raises(ctx)
    prog = ctx.prog
    pk = prog.package
    base_engine = prog.find_class("BaseEngine")
    instantiated: dict[ClassInfo, str] = {}
    engines = sorted(n for n in prog.modules if n.startswith(f"{pk}.dialect.") and n.endswith(".engine"))
    names: dict[str, str] = {}
    for n in engines:
        d = n.split(".")[2]
        m = prog.modules[n]
        own = [c for c in m.classes.values() if re.match(r"^\w+Engine$", c.name)]
        ctx.count("engines")
        if not ctx.check(len(own) == 1, "one-engine", d, m.relpath, f"engine module defines {len(own)} classes named *Engine; the registry picks an arbitrary one"):
            continue
        c = own[0]
        ctx.check(c.is_subclass_of(base_engine), "engine-complete", d, c.loc(), f"{c.name} is not a BaseEngine")
        miss = missing(c)
        ctx.check(not miss, "engine-complete", c.name, c.loc(), f"{c.name} leaves abstract members unimplemented: {[x.name for x in miss]}")
        init = c.find_method("__init__")
        if init is not None and init.cls is not base_engine:
            req = [x.arg for x in init.args.args[1:]][: len(init.args.args) - 1 - len(init.args.defaults)]
            ctx.check(not req, "engine-complete", f"{c.name}.__init__", init.loc(), "engine cannot be created without arguments")
        nm = c.find_method("name")
        if nm is not None and not nm.is_abstract:
            r = ctx.run(nm, c, inline=lambda g, recv: True)
            ok = r.value.op == "const" and r.value.args[0] == d
            ctx.check(ok, "engine-name", c.name, nm.loc(), f"engine of dialect `{d}` is registered under the name {show(r.value)}")
            if r.value.op == "const":
                prev = names.get(str(r.value.args[0]))
                ctx.check(prev is None, "engine-name-unique", c.name, nm.loc(), f"engines of {prev} and {d} have the same name")
                names[str(r.value.args[0])] = d
        for acc, want in ACCESSORS.items():
            f = c.find_method(acc)
            if f is None or f.is_abstract:
                continue  # reported above
            ctx.count("accessors")
            r = ctx.run(f, c, inline=lambda g, recv: True)
            normal = [o for o in r.outcomes if o.kind in ("fall", "return")]
            raised = [e for e in events(r) if e.op == "raise"]
            if not normal:
                only_ni = all("NotImplementedError" in show(e.args[0]) for e in raised)
                ctx.check(only_ni and d in GENERATE_ONLY and acc != "get_generator_type", "engine-wiring", f"{c.name}.{acc}", f.loc(), f"{c.name}.{acc} never returns a class")
                continue
            for v in classes_of(r.value):
                if v.op != "class":
                    ctx.bad("engine-wiring", f"{c.name}.{acc}", f.loc(), f"accessor does not evaluate to a class of the library: {show(v)}")
                    continue
                k: ClassInfo = v.args[0]
                ctx.check(k.is_subclass_of(want), "engine-wiring", f"{c.name}.{acc}", f.loc(), f"{acc} of dialect `{d}` returns {k.name}, which is not a {want}")
                home = k.module.name.split(".")
                own_dialect = home[1:2] == ["dialect"] and home[2] == d
                if not own_dialect:
                    # allowed only where the dialect defines no class of this kind
                    siblings = [x for x in prog.classes() if x.module.name.startswith(f"{pk}.dialect.{d}.") and x.is_subclass_of(want)]
                    parents = {b.module.name.split(".")[2] for x in prog.classes() if x.module.name.startswith(f"{pk}.dialect.{d}.") for b in x.project_mro() if b.module.name.startswith(f"{pk}.dialect.")}
                    ok = not siblings and (home[1:2] != ["dialect"] or home[2] in parents or (d, home[2]) in DERIVED)
                    ctx.check(ok, "engine-own-dialect", f"{c.name}.{acc}", f.loc(), f"{acc} of dialect `{d}` returns {k.qualname} of another dialect")
                else:
                    ctx.ok("engine-own-dialect", f"{c.name}.{acc}", f.loc())
                instantiated.setdefault(k, f.loc())
        # the connection opens the context of its own dialect
        conn = c.find_method("get_connection_type")
        if conn is not None and not conn.is_abstract:
            r = ctx.run(conn, c, inline=lambda g, recv: True)
            for v in classes_of(r.value):
                if v.op == "class":
                    k = v.args[0]
                    op = k.find_method("open")
                    if op is None or op.is_abstract:
                        continue
                    rr = ctx.run(op, k, inline=lambda g, recv: g.cls is k or g.cls is None)
                    ctxs = []
                    for x in classes_of(rr.value):
                        if x.op == "new":
                            ctxs.append(x)
                    ctx.check(bool(ctxs) or rr.value.op == "unknown", "connection-context", k.name, op.loc(), f"opening a connection yields {show(rr.value)}, not a context")
                    for x in ctxs:
                        cc: ClassInfo = x.args[0]
                        ctx.check(cc.is_subclass_of("BaseContext"), "connection-context", f"{k.name} -> {cc.name}", op.loc(), f"{cc.name} is not a BaseContext")
                        home = cc.module.name.split(".")
                        ctx.check(home[1:2] == ["dialect"] and home[2] == d, "connection-context", f"{k.name} -> {cc.name} (dialect)", op.loc(), f"connection of `{d}` opens a context of another dialect")
    # every class constructed in the library is concrete
    for f in prog.functions():
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                r = prog.resolve_expr(f.module, n.func) if not isinstance(n.func, ast.Call) else None
                if isinstance(r, ClassInfo):
                    instantiated.setdefault(r, f.loc(n))
    for c, loc in sorted(instantiated.items(), key=lambda x: x[0].qualname):
        miss = missing(c)
        ctx.count("instantiated classes")
        ctx.check(not miss, "no-abstract-instance", c.short, loc, f"{c.name} is instantiated but leaves abstract members unimplemented: {sorted(x.name for x in miss)}")
    factories(ctx)
    registry(ctx)
    ctx.minimum("engines", 8)
    ctx.minimum("accessors", 24)
    ctx.minimum("instantiated classes", 60)


def given(t: T) -> bool:
    "The options passed by the caller, replaced only if there are none."
    options = T("param", ("options",))
    if t == options:
        return True
    if t.op == "or" and t.args[0] == options:
        return True
    if t.op == "phi":
        c, a, b = t.args
        none = c.op == "isnone" and c.args[0] == options or c == neg(options)
        some = c == options or c.op == "not" and c.args[0].op == "isnone" and c.args[0].args[0] == options
        return (none or given(a)) and (some or given(b)) and (given(a) or given(b))
    return False


def factories(ctx: Ctx) -> None:
    prog = ctx.prog
    be = prog.find_class("BaseEngine")
    opaque = set(ACCESSORS) | {"create_generator"}

    def inline(g, recv):
        return g.name not in opaque

    for name, acc in (("create_connection", "get_connection_type"), ("create_generator", "get_generator_type"), ("create_explorer", "get_explorer_type")):
        f = prog.method(be, name)
        for c in [be] + be.all_subclasses():
            g = c.methods.get(name)
            if g is None:
                continue
            r = ctx.run(g, c, inline=inline)
            v = r.value
            ok = v.op in ("newof", "call") and any(x.op == "call" and str(x.args[0]).endswith("." + acc) for x in walk(v.args[0] if v.op == "newof" else v.args[1] or v))
            ctx.check(ok, "factory-wiring", f"{c.name}.{name}", g.loc(), f"{name} does not construct the class supplied by {acc}: {show(v)[:120]}")
            if not ok:
                continue
            argmap = v.args[1] if v.op == "newof" else v.args[2]
            args = [a for _, a in argmap]
            if name == "create_connection":
                gen = [i for i, a in enumerate(args) if any(x.op == "call" and str(x.args[0]).endswith(".create_generator") for x in walk(a))]
                par = [i for i, a in enumerate(args) if a.op == "param" and a.args[0] == "params"]
                ctx.check(gen == [0] and par == [1], "factory-wiring", f"{c.name}.{name} arguments", g.loc(), "connection is not constructed with a generator and the given parameters")
                made = [x for a in args for x in walk(a) if x.op == "call" and str(x.args[0]).endswith(".create_generator")]
                opt = all(any(given(y) for _, y in x.args[2]) for x in made)
                ctx.check(opt, "factory-options", f"{c.name}.{name}", g.loc(), "options given to create_connection do not reach the generator")
            elif name == "create_generator":
                opt = any(given(a) for a in args)
                ctx.check(opt, "factory-options", f"{c.name}.{name}", g.loc(), "options given to create_generator do not reach the generator")
            else:
                ctx.check(len(args) == 1 and args[0].op == "param", "factory-wiring", f"{c.name}.{name} arguments", g.loc(), "explorer is not constructed with the given context")


def registry(ctx: Ctx) -> None:
    prog = ctx.prog
    reg = prog.find_func("factory.register_dialect")
    params = [x.arg for x in reg.args.args]
    r = ctx.run(reg, inline=lambda g, recv: True)
    ev = events(r)
    raises = [e for e in ev if e.op == "raise"]
    name, engine = (T("param", (x,)) for x in params[:2])
    stores = []  # (event, mapping, key, value, stored only if free by itself)
    for e in ev:
        if e.op == "setitem" and e.args[0].op == "global":
            stores.append((e, e.args[0], e.args[1], e.args[2], False))
        elif e.op == "call" and e.args[0] == ".setdefault" and len(e.args[2]) == 2:
            stores.append((e, e.args[1], e.args[2][0][1], e.args[2][1][1], True))
        elif e.op == "call" and e.args[0] == ".update" and e.args[2] and e.args[2][0][1].op == "seq":
            for i in e.args[2][0][1].args[1]:
                if i.op == "kv":
                    stores.append((e, e.args[1], i.args[0], i.args[1], False))
    ctx.check(len(stores) >= 1, "register", "stores", reg.loc(), "register_dialect does not store the engine")
    for e, store, k, v, default in stores:
        loc = e.loc or reg.loc()
        ctx.check(k == name and v == engine, "register", "key and value", loc, f"engine is stored as {show(v)[:60]} under {show(k)[:60]}")
        if default:
            taken = [p for x in raises for p in x.pc if p.op == "not" and p.args[0].op == "cmp" and e in p.args[0].args and engine in p.args[0].args]
            ctx.check(bool(taken), "register", "raises on taken name", reg.loc(), "registering a taken name does not raise an error")
            continue
        member = T("in", (name, store))
        absent = [p for p in e.pc if p == neg(member) or p.op == "isnone" and p.args[0].op == "call" and p.args[0].args[0] == ".get" and p.args[0].args[1] == store and p.args[0].args[2][0][1] == name]
        ctx.check(bool(absent), "register", "refuses taken name", loc, "an engine is stored without the name being checked to be free")
        ctx.check(not absent or any(neg(p) in x.pc for x in raises for p in absent), "register", "raises on taken name", reg.loc(), "registering a taken name does not raise an error")
    # discovery registers an engine under its own name
    dis = prog.find_func("factory.discover_dialects")
    rd = ctx.run(dis, inline=lambda g, recv: g.name != reg.name and not g.is_abstract and g.cls is None)
    regs = [e for e in events(rd) if e.op == "call" and str(e.args[0]).endswith(reg.name)]
    ctx.check(bool(regs), "discovery", "registers", dis.loc(), "no engine is registered")
    for e in regs:
        args = dict(e.args[2])
        k, v = args.get(params[0], e.args[2][0][1]), args.get(params[1], e.args[2][1][1])
        if v.op == "new":
            continue
        same = k.op == "attr" and k.args == (v, "name") or any(x.op == "tmpl" and k in x.args for x in walk(v))
        ctx.check(same, "discovery", "own name", e.loc or dis.loc(), f"engine is registered under {show(k)[-80:]}, which is not its name")
    get = prog.find_func("factory.get_dialect")
    gp = [x.arg for x in get.args.args][0]
    r = ctx.run(get, inline=lambda g, recv: True)
    ctx.check(any(e.op == "raise" for e in events(r)), "lookup", "raises on unknown name", get.loc(), "an unknown dialect name does not raise an error")
    store_names = {show(x[1]) for x in stores}
    for v in classes_of(r.value):
        key = None
        src = None
        if v.op == "sub":
            src, key = v.args
        elif v.op == "call" and v.args[0] == ".get":
            src, key = v.args[1], v.args[2][0][1]
        ok = key is not None and key.op == "param" and key.args[0] == gp and show(src) in store_names
        ctx.check(ok, "lookup", f"value {show(v)[:40]}", get.loc(), f"get_dialect returns {show(v)[:100]} and not the engine registered under the given name")
    # an absent engine is never returned as None
    if any(v.op == "call" for v in classes_of(r.value)):
        ctx.check(any("isnone" == p.op or (p.op == "not" and p.args[0].op == "isnone") for o in r.outcomes for p in o.state.pc), "lookup", "None", get.loc(), "an unknown name yields None")
