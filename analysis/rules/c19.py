"""
Evaluates the function(s) that construct connection parameters from a parsed URL, the functions that write connection parameters as
text, and the `open` operation of every dialect's connection, and decides:

* `decode`: user name, password and database are each the same component of the parsed URL, percent-decoded exactly once, and only
  absent if that component is absent; host and port are their own components; the URL itself is parsed undecoded.
* `encode`: in the text form, user name and database (and password, if it ever occurs) appear only percent-encoded exactly once with
  no character left as is that the parser treats as a delimiter, and between the delimiters of their own component.
* `pass`: every parameter handed to a driver under a name is the parameter of that name, neither decoded nor encoded.
* `driver-string`: a parameter that becomes part of a driver's own connection string stands under its own keyword, enclosed in braces
  with the closing brace doubled.
* `once`: nothing else in the library encodes or decodes URL components.
"""

from __future__ import annotations

import ast
import re
from typing import Iterator, Optional

from ..common import events, hierarchy
from ..framework import Ctx
from ..program import FuncInfo, dotted, walk_own
from ..sqltext import Hole, Rep, variants
from ..terms import NONE_T, T, literals, neg, show, walk
from ..common import guarded

ASSUMPTIONS = [
    "urllib.parse splits a URL at delimiters and does not decode the components user name, password and path",
    "ODBC connection strings follow the documented grammar: a value enclosed in braces ends at the first closing brace that is not doubled",
    "drivers take parameters passed under separate names literally",
]

FIELDS = {"username": "username", "password": "password", "database": "path", "host": "hostname", "port": "port"}
DECODED = {"username", "password", "database"}
DELIMITERS = set("/:@?#[]%")
NAMES = {
    "user": "username", "username": "username", "db_user": "username", "uid": "username", "user_name": "username",
    "password": "password", "passwd": "password", "pwd": "password",
    "database": "database", "db": "database", "dbname": "database", "service_name": "database", "schema": "database",
    "host": "host", "hostname": "host", "server": "host", "address": "host",
    "port": "port",
}
PARSERS = {"urllib.parse.urlparse", "urllib.parse.urlsplit"}
CODECS = re.compile(r"^urllib\.parse\.(un)?quote(_plus|_from_bytes|_to_bytes)?$|^urllib\.parse\.(parse_qsl?|urlencode)$|^urllib\.request\.(url2pathname|pathname2url)$")


def leaves(t: T, pc: tuple = ()) -> Iterator[tuple[T, tuple]]:
    if t.op == "phi":
        yield from leaves(t.args[1], pc + (t.args[0],))
        yield from leaves(t.args[2], pc + (neg(t.args[0]),))
    elif t.op == "ornone":
        yield from leaves(t.args[0], pc)
    else:
        yield t, pc


def dictargs(t: T) -> dict[str, T]:
    return {str(k): v for k, v in t.args[2]}


def component(t: T) -> Optional[str]:
    "Name of the URL component that a term is, allowing for the removal of the delimiter at its start."
    if t.op == "attr" and t.args[0].op == "call" and t.args[0].args[0] in PARSERS:
        return t.args[1]
    if t.op == "strop" and t.args[0] in ("lstrip", "removeprefix", "strip") and component(t.args[1]) == "path" and all(a in ("/", T("const", ("/",))) for a in t.args[2]):
        return "path"
    if t.op == "sub" and component(t.args[0]) == "path":
        return "path"
    return None


def parsed(t: T) -> Optional[T]:
    for x in walk(t):
        if x.op == "call" and x.args[0] in PARSERS:
            return x
    return None


def decoded(t: T) -> tuple[int, T, str]:
    "Number of decoding steps around a term, the term, and a problem."
    n = 0
    problem = ""
    while t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith("urllib.parse.unquote"):
        if t.args[0] != "urllib.parse.unquote":
            problem = f"decoded by {t.args[0]}"
        a = dictargs(t)
        n += 1
        inner = a.get("0", a.get("string"))
        if inner is None:
            break
        t = inner
    return n, t, problem


def check(ctx: Ctx) -> None:
    prog = ctx.prog
    params = prog.find_class("ConnectionParameters")
    seen: set[str] = set()

    def run(f, cls, inline):
        it = ctx.interp(inline)
        r = it.run(f, cls)
        seen.update(it.visited)
        ctx.functions.update(q[len("pysqlsync."):] for q in it.visited if q.startswith("pysqlsync."))
        return r

    # reading
    for f in prog.functions():
        if f.parent is not None or not any(isinstance(n, ast.Call) and prog.resolve_expr(f.module, n.func) in PARSERS for n in walk_own(f.node)):
            continue
        r = run(f, f.cls, lambda g, recv: g.module is f.module and (g.cls is None or g.cls is f.cls))
        objs: dict[T, T] = {}
        for v, _ in r.returns:
            for x in walk(v):
                if x.op == "new" and x.args[0] is params:
                    objs[x] = x
        if not objs:
            # a helper: analysed where it is inlined
            continue
        ctx.count("functions that read a URL")
        for x in objs:
            given = dict(x.args[1])
            for field, comp in FIELDS.items():
                v = given.get(field)
                c = f"{f.short}: {field}"
                if v is None:
                    ctx.bad("decode", c, f.loc(), f"{field} is not read from the URL")
                    continue
                some = False
                for leaf, pc in leaves(v):
                    if leaf == NONE_T or (leaf.op == "const" and not leaf.args[0]):
                        for p in pc:
                            for l, _ in literals(p):
                                other = {component(y) for y in walk(l) if component(y)}
                                ctx.check(other <= {comp}, "decode", c + " (absence)", f.loc(), f"{field} is dropped depending on {show(l)[:80]}")
                        continue
                    n, inner, problem = decoded(leaf)
                    some = True
                    ctx.check(not problem, "decode", c + " (decoder)", f.loc(), problem)
                    ctx.check(component(inner) == comp, "decode", c + " (component)", f.loc(), f"{field} is {show(inner)[:120]}, not the component `{comp}` of the URL")
                    if field in DECODED:
                        ctx.check(n == 1, "decode", c + " (once)", f.loc(), f"{field} is percent-decoded {n} times")
                    else:
                        ctx.check(n <= 1, "decode", c + " (once)", f.loc(), f"{field} is percent-decoded {n} times")
                    src = parsed(inner)
                    if src is not None:
                        u = [a for k, a in src.args[2] if k in ("0", "url")]
                        bad = [y for a in u for y in walk(a) if y.op == "call" and isinstance(y.args[0], str) and (CODECS.match(y.args[0]) or y.args[0].startswith("urllib."))]
                        ctx.check(bool(u) and not bad, "decode", c + " (input)", f.loc(), "the URL is decoded before it is split into components")
                ctx.check(some, "decode", c + " (present)", f.loc(), f"{field} is never taken from the URL")
    ctx.minimum("functions that read a URL", 1)

    # writing
    for m in params.methods.values():
        if m.name in ("__init__", "__post_init__"):
            continue
        r = run(m, params, lambda g, recv: g.module is m.module)
        for v, _ in r.returns:
            if v.op == "const":
                continue
            ctx.count("text forms of connection parameters")
            for var in variants(v):
                written(ctx, m, var)
    ctx.minimum("text forms of connection parameters", 1)

    # passing
    for c in hierarchy(prog, "BaseConnection"):
        f = c.methods.get("open")
        if f is None or f.is_abstract:
            continue
        r = run(f, c, lambda g, recv: g.cls is not None and (g.cls is c or g.cls in c.project_mro()) and g.name != "open" or g.cls is None and g.module is c.module)
        for e in events(r):
            if e.op != "call" or e.args[1] is not None or not isinstance(e.args[0], str):
                continue
            if not any(re.search(r"connect|Connection|create_pool", e.args[0].split(".")[-1]) for _ in (1,)) or not any(is_param(y) for _, a in e.args[2] for y in walk(a)):
                continue
            if e.meta is not None and isinstance(e.meta, FuncInfo):
                continue
            ctx.count("driver calls with connection parameters")
            for k, a in e.args[2]:
                passed(ctx, f, str(e.args[0]), str(k), a, e.loc or f.loc())
    ctx.minimum("driver calls with connection parameters", 5)

    # once
    for f in prog.functions():
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                d = prog.resolve_expr(f.module, n.func)
                if isinstance(d, str) and CODECS.match(d):
                    ctx.count("uses of a URL codec")
                    top = f
                    while top.parent is not None:
                        top = top.parent
                    ctx.check(f.qualname in seen or top.qualname in seen, "once", f"{f.short}: {d}", f"{f.module.path}:{n.lineno}" if hasattr(f.module, "path") else f.loc(),
                              "encodes or decodes a URL component outside reading and writing a URL")
    ctx.minimum("uses of a URL codec", 4)


def field_of(t: T) -> Optional[str]:
    if t.op == "attr" and t.args[1] in ("username", "password", "database", "host", "port", "ssl"):
        b = t.args[0]
        if b == T("param", ("self",)) or b.op == "attr" and b.args[1] == "params" or b.ty.kind == "cls" and b.ty.ref.name == "ConnectionParameters":  # type: ignore
            return t.args[1]
    return None


def is_param(t: T) -> bool:
    return field_of(t) is not None


def fields_in(t: T) -> set[str]:
    return {field_of(x) for x in walk(t) if field_of(x)}  # type: ignore


def written(ctx: Ctx, f: FuncInfo, var) -> None:
    "One variant of the text form."
    parts = var.parts
    for i, p in enumerate(parts):
        if isinstance(p, str):
            continue
        if isinstance(p, Rep):
            if fields_in(p.seq):
                ctx.bad("encode", f"{f.short}: {sorted(fields_in(p.seq))}", f.loc(), "components are written in a way that is not understood")
            continue
        for leaf, _ in leaves(p.term):
            fs = fields_in(leaf)
            if not fs:
                continue
            before = parts[i - 1] if i and isinstance(parts[i - 1], str) else ""
            after = parts[i + 1] if i + 1 < len(parts) and isinstance(parts[i + 1], str) else ""
            name = sorted(fs)[0]
            c = f"{f.short}: {name}"
            if len(fs) > 1:
                ctx.bad("encode", c, f.loc(), f"several components in one expression: {show(leaf)[:100]}")
                continue
            if name in ("ssl", "port", "host"):
                ok = leaf == T("attr", leaf.args) and (field_of(leaf) == name or name == "ssl") or name in ("ssl", "host")
                ctx.check(ok, "encode", c, f.loc(), f"written as {show(leaf)[:100]}")
                if name == "ssl":
                    ctx.check(before.endswith("ssl="), "encode", c + " (position)", f.loc(), "the SSL mode is not written as the query parameter `ssl`")
                if name == "port":
                    ctx.check(before.endswith(":"), "encode", c + " (position)", f.loc(), "the port is not preceded by `:`")
                continue
            n = 0
            t = leaf
            problem = ""
            while t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith("urllib.parse.quote"):
                a = dictargs(t)
                if t.args[0] != "urllib.parse.quote":
                    problem = f"encoded by {t.args[0]}"
                safe = a.get("safe", a.get("1"))
                left = safe.args[0] if safe is not None and safe.op == "const" else "/" if safe is None else None
                if left is None:
                    problem = "the characters left as is are not constant"
                elif set(left) & DELIMITERS:
                    problem = f"delimiters left as is: {''.join(sorted(set(left) & DELIMITERS))}"
                n += 1
                t = a.get("0", a.get("string", T("unknown")))
            ctx.check(n == 1, "encode", c + " (once)", f.loc(), f"{name} is percent-encoded {n} times")
            ctx.check(not problem, "encode", c + " (safe)", f.loc(), problem)
            ctx.check(field_of(t) == name, "encode", c + " (value)", f.loc(), f"{name} is written as {show(t)[:100]}")
            if name == "username":
                ok = not before.strip("/").endswith(("@", "?", "=")) and (i == 0 or "://" in before or before == "") and (after[:1] in ("@", ":"))
                ctx.check(ok, "encode", c + " (position)", f.loc(), f"the user name stands between {before!r} and {after!r}")
            elif name == "password":
                ctx.check(before.endswith(":") and after.startswith("@"), "encode", c + " (position)", f.loc(), f"the password stands between {before!r} and {after!r}")
            else:
                ctx.check(before.endswith("/") and (after == "" or after.startswith("?")), "encode", c + " (position)", f.loc(), f"the database stands between {before!r} and {after!r}")


def passed(ctx: Ctx, f: FuncInfo, callee: str, key: str, a: T, loc: str) -> None:
    c = f"{f.short}: {callee}({key})"
    for leaf, _ in leaves(a):
        fs = fields_in(leaf)
        fs.discard("ssl")
        if not fs:
            want = NAMES.get(key.lower())
            if want is not None and leaf.op not in ("const", "extern", "global"):
                ctx.bad("pass", c, loc, f"{key} is {show(leaf)[:100]}, not the {want} of the connection parameters")
            continue
        own = field_of(leaf)
        if own is not None:
            want = NAMES.get(key.lower())
            ctx.check(want is None or want == own, "pass", c, loc, f"the {own} is passed as {key}")
            if want is None and key.isdigit() is False:
                ctx.ok("pass", c, loc)
            continue
        if any(x.op == "call" and isinstance(x.args[0], str) and CODECS.match(x.args[0]) for x in walk(leaf)):
            ctx.bad("pass", c, loc, "a connection parameter is percent-encoded or decoded when it is passed to the driver")
            continue
        if leaf.op == "call" and leaf.args[1] is None and isinstance(leaf.args[0], str) and "." in leaf.args[0]:
            # an object of the driver that holds credentials
            for k, b in leaf.args[2]:
                k2 = {"0": "username", "1": "password"}.get(str(k), str(k)) if "Auth" in leaf.args[0] else str(k)
                passed(ctx, f, str(leaf.args[0]), k2, b, loc)
            continue
        if leaf.op in ("call", "new") and not leaf.op == "tmpl" and leaf.args and isinstance(leaf.args[0], str) and re.search(r"ssl|context", leaf.args[0]):
            continue
        if leaf.op in ("tmpl", "join", "phi", "binop", "strop"):
            for var in variants(leaf):
                driver_string(ctx, f, c, var, loc)
            continue
        ctx.bad("driver-string", c, loc, f"connection parameters are passed as {show(leaf)[:120]}")


def driver_string(ctx: Ctx, f: FuncInfo, c: str, var, loc: str) -> None:
    parts = var.parts
    for i, p in enumerate(parts):
        if isinstance(p, str):
            continue
        if isinstance(p, Rep):
            if fields_in(p.seq):
                ctx.bad("driver-string", c, loc, f"settings are joined from {show(p.seq)[:100]}")
            continue
        fs = fields_in(p.term) - {"ssl"}
        if not fs:
            continue
        before = parts[i - 1] if i and isinstance(parts[i - 1], str) else ""
        after = parts[i + 1] if i + 1 < len(parts) and isinstance(parts[i + 1], str) else ""
        m = re.search(r"(?:^|;)\s*([A-Za-z_ ]+)=\{$", before)
        key = m.group(1).strip() if m else "?"
        for leaf, _ in leaves(p.term):
            fs = fields_in(leaf) - {"ssl"}
            if not fs:
                continue
            name = sorted(fs)[0]
            d = f"{c} {key}"
            if fs == {"port"} and leaf.op == "attr":
                continue  # a number
            t = leaf
            n = 0
            while t.op == "strop" and t.args[0] == "replace" and tuple(const_of(x) for x in t.args[2]) == ("}", "}}"):
                n += 1
                t = t.args[1]
            ctx.check(n == 1 and m is not None and after.startswith("}") and not after.startswith("}}"), "driver-string", f"{d}: {name} (enclosed)", loc,
                      f"{show(leaf)[:100]} after {before[-20:]!r} is not enclosed in braces with the closing brace doubled once: it can introduce further settings")
            own = set()
            for l2, _ in leaves(t):
                own |= fields_in(l2)
                if field_of(l2) is None and not (l2.op == "tmpl" and fields_in(l2) <= {"host", "port"}):
                    ctx.bad("driver-string", f"{d}: {name} (value)", loc, f"the value is {show(l2)[:100]}")
            want = NAMES.get(key.lower())
            ctx.check(want is None or want in own and own <= {want} | ({"port"} if want == "host" else set()), "driver-string", f"{d}: {name} (keyword)", loc,
                      f"the keyword {key} is given {sorted(own)}")


def const_of(x):
    return x.args[0] if isinstance(x, T) and x.op == "const" else x
