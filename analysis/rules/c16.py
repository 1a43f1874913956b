"""
Import-closure rule. For the library core and for each dialect package, the set of third-party modules imported
unconditionally when the package is imported is computed over the transitive closure of project imports (package
initialisers included). Drivers are the third-party modules named by the `dependency` modules of the dialects. The closure of
the core contains no driver and no dialect; the closure of a dialect contains only drivers that its own `dependency` module
imports. The registration loop is evaluated abstractly: the `dependency` module of the same resource is imported under a
handler for exactly ModuleNotFoundError, the `engine` module is imported outside of it, and the handler registers an
UnavailableEngine under the name of the resource, all of whose operations raise.
"""

import ast
import os
import sys

from ..framework import Ctx
from ..program import AnalysisError, Module, Program, dotted
from ..terms import T, show, walk

# drivers that cannot be imported without another package, which they import themselves
IMPLIED = {"aiomysql": {"pymysql"}}

# drivers of database servers in general
KNOWN = {"asyncpg", "psycopg", "psycopg2", "pg8000", "aiopg", "aiomysql", "pymysql", "asyncmy", "MySQLdb", "mysql", "pyodbc", "aioodbc", "pymssql", "oracledb", "cx_Oracle", "redshift_connector", "aiotrino", "trino", "prestodb", "snowflake", "databricks", "pyspark", "duckdb", "sqlalchemy"}

ASSUMPTIONS = ["importing aiomysql imports pymysql, hence a successful import of aiomysql implies that pymysql is installed", "modules outside the standard library and outside pysqlsync are third-party; a conditional import guarded by a handler of ImportError/ModuleNotFoundError or by TYPE_CHECKING is not a requirement"]


def import_nodes(m: Module):
    "Imports executed when the module is imported (not inside functions, not optional)."
    def go(body):
        for st in body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                yield st
            elif isinstance(st, ast.If):
                if (dotted(st.test) or "").split(".")[-1] == "TYPE_CHECKING":
                    yield from go(st.orelse)
                else:
                    yield from go(st.body)
                    yield from go(st.orelse)
            elif isinstance(st, ast.Try):
                optional = any(h.type is None or any((dotted(e) or "").split(".")[-1] in ("ImportError", "ModuleNotFoundError", "Exception") for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])) for h in st.handlers)
                # (a module is optional if its absence is handled)
                if not optional:
                    yield from go(st.body)
                for h in st.handlers:
                    yield from go(h.body)
                yield from go(st.orelse)
                yield from go(st.finalbody)
            elif isinstance(st, (ast.With, ast.For, ast.While)):
                yield from go(st.body)
            elif isinstance(st, ast.ClassDef):
                yield from go(st.body)
    yield from go(m.tree.body if isinstance(m, Module) else m)


def executed(m: Module):
    "Functions of the module that are called when it is imported, with those they call."
    defs = {st.name: st for st in m.tree.body if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef))}
    todo = [st for st in m.tree.body if not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef))]
    todo += [d for st in defs.values() for d in st.decorator_list]
    seen: set[str] = set()
    while todo:
        for n in ast.walk(todo.pop()):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in defs and n.func.id not in seen:
                seen.add(n.func.id)
                todo.append(defs[n.func.id])
    return [defs[n] for n in sorted(seen)]


def imports_of(prog: Program, m: Module):
    "Pairs of (absolute dotted name, node)."
    for st in list(import_nodes(m)) + [n for f in executed(m) for n in import_nodes(f.body)]:
        if isinstance(st, ast.Import):
            for a in st.names:
                yield a.name, st
        else:
            base = prog.resolve_from(m, st)
            for a in st.names:
                full = f"{base}.{a.name}"
                if full in prog.modules:
                    yield full, st
                yield base, st
    # importlib.import_module with a literal at module level
    for st in m.tree.body:
        for n in ast.walk(st) if not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else ():
            if isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] in ("import_module", "__import__") and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str) and not n.args[0].value.startswith("."):
                yield n.args[0].value, n


def closure(prog: Program, start: str):
    "Third-party top-level packages with a witness (module, node), and project modules reached."
    third: dict[str, tuple[Module, ast.AST]] = {}
    seen: set[str] = set()
    work = [start]
    while work:
        n = work.pop()
        parts = n.split(".")
        for i in range(1, len(parts) + 1):
            k = ".".join(parts[:i])
            if k in prog.modules and k not in seen:
                seen.add(k)
                m = prog.modules[k]
                for name, node in imports_of(prog, m):
                    if name.split(".")[0] == prog.package:
                        work.append(name)
                    elif name.split(".")[0] not in sys.stdlib_module_names:
                        third.setdefault(name.split(".")[0], (m, node))
    return third, seen


def unavailable_raises(ctx: Ctx) -> None:
    "Each operation of an engine whose driver is absent ends in an error, on every path."
    ue = ctx.prog.find_class("UnavailableEngine")
    base = ctx.prog.find_class("BaseEngine")
    for n, m in sorted(base.methods.items()):
        if m.is_abstract and not m.is_property:
            g = ctx.prog.method(ue, n)
            r = ctx.run(g, ue, inline=lambda h, recv: h.cls is ue or h.cls is None)
            ctx.check(not any(o.kind in ("fall", "return") for o in r.outcomes), "unavailable-raises", f"UnavailableEngine.{n}", g.loc(), "operation on an unavailable dialect does not raise an error on every path")


def check(ctx: Ctx) -> None:
    prog = ctx.prog
    pk = prog.package
    dialects = sorted({n.split(".")[2] for n in prog.modules if n.startswith(f"{pk}.dialect.") and len(n.split(".")) > 3})
    declared: dict[str, set[str]] = {}
    for d in dialects:
        m = prog.modules.get(f"{pk}.dialect.{d}.dependency")
        if m is None:
            ctx.bad("dependency-module", d, f"{pk}/dialect/{d}", "dialect has no `dependency` module, hence is skipped or fails on registration")
            declared[d] = set()
            continue
        ctx.count("dependency modules")
        declared[d] = {n.split(".")[0] for n, _ in imports_of(prog, m) if n.split(".")[0] not in sys.stdlib_module_names and n.split(".")[0] != pk}
        third, seen = closure(prog, m.name)
        for s in sorted(seen):
            if s.startswith(f"{pk}.dialect.") and len(s.split(".")) > 2 and s.split(".")[2] != d:
                ctx.bad("dependency-module", f"{d} -> {s}", m.relpath, "dependency check imports another dialect")
    drivers = set().union(*declared.values(), *IMPLIED.values(), KNOWN)
    # third-party modules that only dialects import are drivers too
    core = [n for n in prog.modules if not n.startswith(f"{pk}.dialect.")]
    core_third: dict[str, tuple] = {}
    for n in core:
        third, seen = closure(prog, n)
        ctx.count("core modules")
        for t, (m, node) in third.items():
            if t in drivers:
                ctx.bad("core-imports-no-driver", f"{n} -> {t}", f"{m.relpath}:{node.lineno}", f"importing {n} requires the driver `{t}`")
            core_third[t] = (m, node)
        bad = sorted(s for s in seen if s.startswith(f"{pk}.dialect."))
        ctx.check(not bad, "core-imports-no-dialect", n, prog.modules[n].relpath, f"importing {n} imports dialect module(s) {bad}")
    base = set(core_third) - drivers
    for d in dialects:
        mods = [n for n in prog.modules if n.startswith(f"{pk}.dialect.{d}.") and not n.endswith(".dependency")]
        for n in mods:
            ctx.count("dialect modules")
            third, seen = closure(prog, n)
            for t, (m, node) in sorted(third.items()):
                implied = set().union(*[IMPLIED.get(x, set()) for x in declared[d]])
                if t in declared[d] or t in implied or t in base:
                    ctx.ok("dialect-imports-declared", f"{n} -> {t}", f"{m.relpath}:{node.lineno}")
                else:
                    ctx.bad("dialect-imports-declared", f"{n} -> {t}", f"{m.relpath}:{node.lineno}", f"importing {n} requires `{t}`, which the `dependency` module of dialect `{d}` does not import")
    # a dependency module declares no driver of another dialect
    owner: dict[str, set[str]] = {}
    for d in dialects:
        used: set[str] = set()
        for n in prog.modules:
            if n.startswith(f"{pk}.dialect.{d}.") and not n.endswith(".dependency"):
                m = prog.modules[n]
                used |= {x.split(".")[0] for x, _ in imports_of(prog, m)} & drivers
        for t in used:
            owner.setdefault(t, set()).add(d)
    for d in dialects:
        for t in sorted(declared[d]):
            ctx.check(not owner.get(t) or d in owner[t], "dependency-own-driver", f"{d} -> {t}", f"{pk}/dialect/{d}/dependency.py", f"dialect `{d}` declares `{t}`, which is the driver of {sorted(owner.get(t, ()))} and is not used by `{d}`")
    check_registration(ctx)
    ctx.minimum("dependency modules", 8)
    ctx.minimum("core modules", 15)
    ctx.minimum("dialect modules", 30)


def admitted(p: T, name: str):
    "Truth of a condition on the entry of a directory that is a dialect of the given name; None if undetermined."
    if p.op == "not":
        v = admitted(p.args[0], name)
        return None if v is None else not v
    if p.op in ("and", "or"):
        vs = [admitted(x, name) for x in p.args]
        if p.op == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if p.op == "call" and p.args[0] in (".is_dir", ".exists"):
        return True
    if p.op == "call" and p.args[0] == ".is_file":
        return False
    if p.op == "call" and p.args[0] in (".startswith", ".endswith") and p.args[1].op == "attr" and p.args[1].args[1] == "name":
        a = p.args[2][0][1]
        cs = [x for x in (a.args if a.op == "tup" else [a])]
        if all(isinstance(x, T) and x.op == "const" and isinstance(x.args[0], str) for x in cs):
            return getattr(name, p.args[0][1:])(tuple(x.args[0] for x in cs))
    if p.op == "in" and p.args[0].op == "attr" and p.args[0].args[1] == "name":
        cs = [x for x in walk(p.args[1]) if x.op == "const"]
        return name in [x.args[0] for x in cs]
    if p.op == "cmp" and p.args[0] in ("==", "!="):
        cs = [x.args[0] for x in p.args[1:] if x.op == "const"]
        if cs and any(x.op == "attr" and x.args[1] == "name" for x in p.args[1:]):
            return (cs[0] == name) == (p.args[0] == "==")
    return None


def check_registration(ctx: Ctx) -> None:
    prog = ctx.prog
    f = prog.find_func("factory.discover_dialects")
    public = {"register_dialect"}
    # tree level: which handlers surround which import
    r = ctx.run(f, inline=lambda g, recv: g.name not in public and not g.is_abstract and (g.cls is None or g.cls.name == "UnavailableEngine"))
    events = [x for top in r.trace for x in walk(top)]
    events = [x for x in events if x.op in ("call", "new")]
    imports = [e for e in events if e.op == "call" and str(e.args[0]).split(".")[-1] in ("import_module", "__import__")]
    regs = [e for e in events if e.op == "call" and str(e.args[0]).endswith("register_dialect")]
    dep = [e for e in imports if any(isinstance(p, str) and ".dependency" in p for x in walk(e) if x.op == "tmpl" for p in x.args)]
    eng = [e for e in imports if any(isinstance(p, str) and ".engine" in p for x in walk(e) if x.op == "tmpl" for p in x.args)]
    if eng and regs and not dep:
        ctx.bad("registration-handler", "dependency import", f.loc(), "the module `dependency` of a dialect, which states the drivers that the dialect requires, is not imported first")
        return
    if not dep or not eng or not regs:
        raise AnalysisError(f"registration loop not recognised: {len(imports)} imports, {len(regs)} registrations")
    ctx.count("registration sites", len(regs))
    handlers: dict[str, list[str]] = {}
    for g in prog.functions():
        if g.module is f.module:
            for n in ast.walk(g.node):
                if isinstance(n, ast.Try):
                    body_imports = [c for st in n.body for c in ast.walk(st) if isinstance(c, ast.Call)]
                    names = []
                    for h in n.handlers:
                        names += [dotted(e) or "?" for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else ["BaseException"]
                    for c in body_imports:
                        handlers.setdefault(f"{c.lineno}", []).extend(names)
    def enclosing(e: T):
        return handlers.get((e.loc or ":").rsplit(":", 1)[1], [])
    for e in dep:
        names = enclosing(e)
        broad = [n for n in names if n.split(".")[-1] != "ModuleNotFoundError"]
        ctx.check("ModuleNotFoundError" in names and not broad, "registration-handler", "dependency import", e.loc or f.loc(), f"import of the dependency module is guarded by {names or 'no handler'}; expected exactly ModuleNotFoundError")
    for e in eng:
        names = [n for n in enclosing(e) if n.split(".")[-1] in ("Exception", "BaseException", "ImportError", "ModuleNotFoundError")]
        ctx.check(not names, "registration-handler", "engine import", e.loc or f.loc(), f"a failure of the engine import is hidden by a handler of {names}")
    # names: the dependency and engine of the same resource
    def hole(e: T):
        out = []
        for x in walk(e):
            if x.op == "tmpl":
                out += [show(p) for p in x.args if isinstance(p, T)]
        return out
    names = {h for e in dep + eng for h in hole(e)}
    ctx.check(len(names) == 1, "registration-same-resource", "dependency/engine", dep[0].loc or "", f"dependency and engine modules are taken from different resources: {sorted(names)}")
    un = [e for e in regs if any(x.op == "new" and x.args[0].name == "UnavailableEngine" for x in walk(e))]
    av = [e for e in regs if e not in un]
    ctx.check(bool(un), "unavailable-registered", "discover_dialects", f.loc(), "a dialect with a missing driver is not registered as unavailable")
    # every dialect gets its turn, and is registered unless it is skipped as not being a dialect
    loops = [x for top in r.trace for x in walk(top) if x.op == "for" and any(y in (e for e in un + av) for y in walk(x))]
    cut = [x for x in loops if len(x.args) > 3] + [x for e in un + av for p in e.pc for x in walk(p) if x.op in ("exists", "found")]
    cut += [x for top in r.trace for x in walk(top) if x.op == "if" and any(y.op in ("exists", "found") for y in walk(x.args[0])) and any(y in (e for e in un + av) for y in walk(x))]
    ctx.check(not cut, "registration-complete", "discover_dialects", f.loc(), "discovery stops before all dialects have been examined")
    skip = set(dep[0].pc)
    for e in un + av:
        extra = [p for p in e.pc if p not in skip and p.op != "exc" and not (p.op == "not" and p.args[0].op == "exc")]
        ctx.check(not extra, "registration-complete", "available" if e in av else "unavailable", e.loc or f.loc(), f"a dialect is registered only if {', '.join(map(show, extra))[:160]}")
    for d in sorted({n.split(".")[2] for n in prog.modules if n.startswith(f"{prog.package}.dialect.") and len(n.split(".")) > 3}):
        for p in dep[0].pc:
            ctx.check(admitted(p, d) is not False, "registration-complete", d, dep[0].loc or f.loc(), f"dialect `{d}` is skipped by discovery: {show(p)[:120]}")
    ue = prog.find_class("UnavailableEngine")
    base = prog.find_class("BaseEngine")
    nm = prog.method(ue, "name")
    rn = ctx.run(nm, ue, inline=lambda h, recv: h.cls is ue)
    init = prog.method(ue, "__init__")
    sets = {e.args[1]: e.args[2] for top in ctx.run(init, ue, inline=lambda h, recv: True).trace for e in walk(top) if e.op == "setattr" and e.args[0] == T("param", ("self",))}
    field = rn.value.args[1] if rn.value.op == "attr" and rn.value.args[0] == T("param", ("self",)) else None
    ctx.check(field in sets and sets[field] == T("param", ("name",)), "unavailable-registered", "UnavailableEngine.name", nm.loc(), f"an unavailable engine states the name {show(rn.value)}, not the one it was created with")

    def plain(t: T) -> T:
        "An attribute of a new unavailable engine is what the constructor stores there."
        if t.op == "attr" and t.args[0].op == "new" and t.args[0].args[0] is ue:
            v = sets.get(field if t.args[1] == "name" else t.args[1])
            if v is not None and v.op == "param":
                return dict(t.args[0].args[1]).get(v.args[0], t)
        return t

    for e in un:
        key = plain(e.args[2][0][1])
        ctx.check(show(key) in names or any(show(key) == n for n in names), "unavailable-registered", "name", e.loc or "", f"unavailable dialect is registered under {show(key)}, not under its own name")
        ctx.check(any(p.op == "exc" for p in e.pc), "unavailable-registered", "only if missing", e.loc or "", "dialect is registered as unavailable although its driver may be present")
        new = next(x for x in walk(e) if x.op == "new" and x.args[0].name == "UnavailableEngine")
        d = dict(new.args[1])
        ctx.check("name" in d and d["name"] == key, "unavailable-registered", "engine name", e.loc or "", "the unavailable engine reports another name")
    for e in av:
        ctx.check(not any(p.op == "exc" for p in e.pc), "available-registered", "only if present", e.loc or "", "an engine is registered in the handler of a missing driver")
    ctx.check(bool(av), "available-registered", "discover_dialects", f.loc(), "no available dialect is ever registered")
    unavailable_raises(ctx)
