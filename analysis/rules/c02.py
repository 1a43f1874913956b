"""
Character-map analysis of the quoting functions. Each quoting function is evaluated symbolically on every path, helpers inlined; the
result is a sequence of constant text and of images of the argument under a map on single characters (replace, translate, re.sub of
one character, joins over characters, in any composition). The sequence is read with the lexical grammar of the SQL dialect the
function belongs to: for every character not excluded by the conditions of the path, its image must be read back as exactly that
character without leaving the token, and the token must be closed at the end; this decides the property for every string. Identifier
classes are compared with the names they stand for (`scope_id`, `local_id`), the LIKE escape is read as literal and then as pattern,
for a symbolic escape character. Functions that belong to dialects in which a backslash escapes must not pass text to quoting
functions written for standard literals.
"""

import ast

from ..common import consts, method_name
from ..framework import Ctx, events
from ..program import AnalysisError, FuncInfo
from ..quoting import DELTA, MYSQL, SNOWFLAKE, STANDARD, SYMBOLIC, Broken, Hom, Texts, Unknown, decode, decode_like
from ..terms import T, const, show, subst

ASSUMPTIONS = [
    "lexical grammar of literals: backslash escapes in MySQL (unless NO_BACKSLASH_ESCAPES), Snowflake, Databricks and PostgreSQL E''; not in the other dialects",
    "PostgreSQL runs with standard_conforming_strings = on, its default; SQL Server with QUOTED_IDENTIFIER ON, the default of its driver",
    "a text has no NUL characters where the dialect has no way to write them",
]
GRAMMARS = {"mysql": MYSQL, "snowflake": SNOWFLAKE, "delta": DELTA}
SHARED = ("quote", "escape_like", "constant")
RAW_TYPES = {"int", "float", "bool", "decimal.Decimal", "complex"}
EXEMPT = "GlobalId"


def everything(g: FuncInfo, recv) -> bool:
    return not (g.name == "constant" and g.cls is None)


def package(f: FuncInfo) -> str:
    parts = f.module.name.split(".")
    return parts[parts.index("dialect") + 1] if "dialect" in parts and len(parts) > parts.index("dialect") + 1 else ""


def grammar_of(f: FuncInfo):
    return GRAMMARS.get(package(f), STANDARD)


def text_parameter(f: FuncInfo) -> list[str]:
    return [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs if a.arg not in ("self", "cls")]


def identifiers(ctx: Ctx, texts: Texts) -> None:
    n = 0
    for c in ctx.prog.classes():
        f = c.methods.get("quoted_id") or (c.methods.get("__str__") if c.find_method("quoted_id") else None)
        if f is None or f.is_abstract:
            continue
        local = c.find_method("local_id")
        scope = c.find_method("scope_id")
        if local is None:
            continue
        for name in ("quoted_id", "__str__"):
            g = c.find_method(name)
            if g is None:
                ctx.check(name != "__str__", "identifier", f"{c.short}.{name}", c.loc(), f"{c.short} has no __str__: the text of an identifier would be an object address")
                continue
            n += 1
            ctx.analysed(g)
            rule = "identifier"
            where = f"{c.short}.{name}"
            try:
                value = ctx.run(g, c, inline=everything).value
                if c.name == EXEMPT:
                    ctx.check(value == T("attr", (T("param", ("self",)), "id")) or show(value) in ("self.id", 'f"{self.id}"'), rule, where, g.loc(), f"{where} is {show(value)}, expected the bare name")
                    continue
                lv = ctx.run(local, c, inline=everything).value
                sv = ctx.run(scope, c, inline=everything).value if scope is not None else const(None)
                for env, pieces in texts.alternatives(value):
                    tokens = decode(pieces, STANDARD)
                    got = [(t.kind, t.content) for t in tokens]
                    for env2, lp in texts.alternatives(lv, env):
                        for env3, sp in texts.alternatives(sv, env2):
                            want: list = [("ident", content(lp))]
                            absent = sv == const(None) or sp == ["None"] or any(isinstance(x, Hom) and env3.known(T("isnone", (x.src,))) for x in sp)
                            if not absent:
                                want = [("ident", content(sp)), ("raw", ["."])] + want
                            ctx.check(got == want, rule, where, g.loc(), f"{where} is written as {tokens}, expected the quoted form of {plain(want)}")
                            ctx.count("paths")
            except Broken as e:
                ctx.bad(rule, where, g.loc(), f"{where}: {e}")
            except Unknown as e:
                ctx.bad(rule, where, g.loc(), f"{where}: cannot be shown to quote every name: {e}")
    ctx.count("identifier functions", n)
    ctx.minimum("identifier functions", 6)


def content(pieces: list) -> list:
    out: list = []
    for p in pieces:
        x = p if isinstance(p, str) else p.src
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def plain(want: list) -> str:
    return "".join("".join(x if isinstance(x, str) else "{" + show(x) + "}" for x in c) for _, c in want)


def constant_names(ctx: Ctx) -> None:
    "Identifiers that are never quoted are made of constants only."
    n = 0
    for f in ctx.prog.functions():
        for node in ast.walk(f.node):
            if isinstance(node, ast.Call) and ast.unparse(node.func).split(".")[-1] == EXEMPT:
                n += 1
                own = f.cls is not None and f.cls.name == EXEMPT and f.name == "rename"
                arg = node.args[0] if node.args else None
                ctx.check(own or isinstance(arg, ast.Constant), "bare-name", f.short, f.loc(node), f"{f.short} makes an identifier that is never quoted of `{ast.unparse(arg) if arg is not None else ''}`")
    ctx.count("constructions of unquoted identifiers", n)


def delimited(alternatives: list) -> bool:
    import re
    return bool(alternatives) and all(ps and isinstance(ps[0], str) and re.match(r"[EN]?['\"`]", ps[0]) for _, ps in alternatives)


def literal(ctx: Ctx, texts: Texts, rule: str, where: str, loc: str, value: T, source: T, grammar) -> None:
    try:
        for _, pieces in texts.alternatives(value):
            tokens = [t for t in decode(pieces, grammar) if not (t.kind == "raw" and "".join(map(str, t.content)).upper() == "N")]
            good = len(tokens) == 1 and tokens[0].kind in ("literal", "ident") and tokens[0].content == [source]
            ctx.check(good, rule, where, loc, f"{where} gives {tokens}, expected one quoted text of `{show(source)}`")
            ctx.count("paths")
    except Broken as e:
        ctx.bad(rule, where, loc, f"{where}: {e}")
    except Unknown as e:
        ctx.bad(rule, where, loc, f"{where}: cannot be shown to quote every text: {e}")


def literals(ctx: Ctx, texts: Texts) -> None:
    n = 0
    for f in ctx.prog.functions():
        if f.cls is not None or f.parent is not None or "data" in f.module.name.split("."):
            continue
        names = text_parameter(f)
        must = f.name == "sql_quoted_string" or (f.name == "quote" and f.module.name.endswith("model.data_types"))
        if len(names) != 1 or not (must or str(ast.unparse(f.node.returns) if f.node.returns else "") == "str"):
            continue
        if not must and ast.unparse(f.node.args.args[0].annotation or ast.Constant(None)) != "str" if f.node.args.args else True:
            continue
        source = T("param", (names[0],))
        value = ctx.run(f, None, inline=everything).value
        if not must:
            try:
                if not delimited(list(texts.alternatives(value))):
                    continue
            except Unknown:
                import re
                if not re.search(r"quote", f.name) or f.name == "quote_id":
                    continue
        n += 1
        ctx.analysed(f)
        literal(ctx, texts, "literal", f.short, f.loc(), value, source, grammar_of(f))
        if f.name == "quote" and f.module.name.endswith("model.data_types"):
            for d, g in GRAMMARS.items():
                literal(ctx, texts, f"literal-{d}", f.short, f.loc(), value, source, g)
    ctx.count("literal functions", n)
    ctx.minimum("literal functions", 4)


def patterns(ctx: Ctx, texts: Texts) -> None:
    f = ctx.prog.find_func("pysqlsync.model.data_types.escape_like")
    names = text_parameter(f)
    if len(names) != 2:
        raise AnalysisError("escape_like takes a text and an escape character")
    source = T("param", (names[0],))
    value = subst(ctx.run(f, None, inline=everything).value, T("param", (names[1],)), const(SYMBOLIC))
    ctx.analysed(f)
    ctx.count("pattern functions")
    for rule, g in [("pattern", STANDARD), ("pattern-mysql", MYSQL)]:
        try:
            for _, pieces in texts.alternatives(value):
                got = decode_like(pieces, g, SYMBOLIC)
                ctx.check(got == [source], rule, f.short, f.loc(), f"{f.short} matches {got}, expected exactly `{show(source)}`")
                ctx.count("paths")
        except Broken as e:
            ctx.bad(rule, f.short, f.loc(), f"{f.short}: {e}")
        except Unknown as e:
            ctx.bad(rule, f.short, f.loc(), f"{f.short}: cannot be shown to escape every text: {e}")


def type_names(ty) -> set[str]:
    out = set()
    for a in getattr(ty, "args", ()) if getattr(ty, "kind", "") == "union" else (ty,):
        out.add(str(getattr(a, "ref", a)))
    return out


def constants(ctx: Ctx, texts: Texts) -> None:
    f = ctx.prog.find_func("pysqlsync.model.data_types.constant")
    ctx.analysed(f)
    names = text_parameter(f)
    v = T("param", (names[0],))
    value = ctx.run(f, None, inline=everything).value

    def raw_type(c: T, pol: bool) -> bool:
        "The outcome of a test tells that the value has a type that is written without quotes."
        if c.op == "not":
            return raw_type(c.args[0], not pol)
        if c.op in ("and", "or"):
            parts = c.args[0] if isinstance(c.args[0], (tuple, frozenset)) else c.args
            return (any if pol == (c.op == "and") else all)(raw_type(x, pol) for x in parts)
        return pol and c.op in ("isinst", "isinstance") and c.args[0] == v and bool(type_set(c)) and type_set(c) <= RAW_TYPES

    def leaf(t: T, conds: tuple) -> None:
        if t.op == "phi" and concerns(t.args[0], v) and not (t.args[1].op == "const" and t.args[2].op == "const"):
            leaf(t.args[1], conds + ((t.args[0], True),))
            leaf(t.args[2], conds + ((t.args[0], False),))
            return
        ctx.count("paths")
        where = f.short
        if t.op == "phi" and t.args[1].op == "const" and t.args[2].op == "const":
            return
        raw_ok = any(raw_type(c, pol) for c, pol in conds)
        try:
            for _, pieces in texts.alternatives(t):
                for tok in decode(pieces, STANDARD):
                    for c in tok.content:
                        if isinstance(c, str):
                            continue
                        if tok.kind == "raw":
                            nested = c.op == "call" and getattr(c.meta, "name", "") == "constant"
                            ctx.check(nested or (raw_ok and c == v), "constant", where, f.loc(), f"{where} writes `{show(c)}` without quotes when {' and '.join(('' if p else 'not ') + show(x) for x, p in conds[-1:])}")
                        else:
                            ctx.check(tok.kind == "literal", "constant", where, f.loc(), f"{where} writes `{show(c)}` as an identifier")
        except Broken as e:
            ctx.bad("constant", where, f.loc(), f"{where}: {e}")
        except Unknown:
            # a list of values: every element must be written by the function itself
            ok = all(x.op != "call" or getattr(x.meta, "name", "") in ("constant", "") or x.meta is None for x in elements(t)) and bool(elements(t))
            ctx.check(ok and all(getattr(x.meta, "name", "") == "constant" for x in elements(t)), "constant", where, f.loc(), f"{where} writes the elements of a value without quoting them: {show(t)[:200]}")

    leaf(value, ())


def concerns(c: T, v: T) -> bool:
    "True for a test of the type of a value."
    if c.op == "not":
        return concerns(c.args[0], v)
    if c.op in ("and", "or"):
        return any(concerns(x, v) for x in (c.args[0] if isinstance(c.args[0], (tuple, frozenset)) else c.args))
    if c.op in ("isinst", "isinstance"):
        return c.args[0] == v
    return c.op == "call" and "dataclass" in str(c.args[0])


def elements(t: T) -> list[T]:
    out: list[T] = []

    def go(x: T) -> None:
        if x.op == "join":
            s = x.args[1]
            if s.op == "seq":
                for i in s.args[1]:
                    inner(i)
                return
            out.append(s)
            return
        if x.op == "tmpl":
            for p in x.args:
                if isinstance(p, T):
                    go(p)
            return
        out.append(x)

    def inner(i: T) -> None:
        if i.op == "item":
            out.append(i.args[0])
        elif i.op == "for":
            for j in i.args[2]:
                inner(j)
        elif i.op == "if":
            for j in i.args[1] + i.args[2]:
                inner(j)
        else:
            out.append(i)

    go(t)
    return out


def type_set(c: T) -> set[str]:
    text = show(c)
    inside = text[text.index(",") + 1 :].strip().rstrip(")")
    inside = inside.replace("union:None[", "").replace("]", "")
    return {x.strip().replace("ext:", "") for x in inside.split(",") if x.strip()}


def call_sites(ctx: Ctx, texts: Texts) -> None:
    "Dialects in which a backslash escapes do not use the quoting functions for standard literals."
    data_types = ctx.prog.find_func("pysqlsync.model.data_types.quote").module.name
    values = {}
    for name in SHARED[:2]:
        f = ctx.prog.find_func(f"pysqlsync.model.data_types.{name}")
        values[f] = ctx.run(f, None, inline=everything).value
    n = 0
    for f in ctx.prog.functions():
        if package(f) not in GRAMMARS or f.parent is not None:
            continue
        g = grammar_of(f)
        r = None
        for node in ast.walk(f.node):
            if isinstance(node, ast.Call):
                name = ast.unparse(node.func).split(".")[-1]
                target = f.module.imports.get(ast.unparse(node.func))
                if name in SHARED and (target is None or str(target).startswith("pysqlsync.model.data_types") or True):
                    r = True
        if r is None:
            continue
        ctx.analysed(f)
        res = ctx.run(f, f.cls, inline=lambda h, recv: False)
        for e in events(res):
            if e.op != "call" or not isinstance(e.meta, FuncInfo) or e.meta.module.name != data_types or e.meta.name not in SHARED:
                continue
            if f.cls is None and len(text_parameter(f)) == 1 and f.name != "constant" and "quote" in f.name:
                continue  # a quoting function, decided as a whole
            n += 1
            where = f"{f.short}: {e.meta.name}"
            args = dict(e.args[2])
            if e.meta.name == "constant":
                a = list(args.values())[0]
                ctx.check(a.op == "const" and "\\" not in str(a.args[0]), f"site-{package(f)}", where, e.loc or f.loc(), f"{f.short} writes `{show(a)}` with the function for standard literals, though a backslash escapes in {g.name}")
                continue
            value = values[e.meta]
            params = text_parameter(e.meta)
            for p in params:
                if p in args:
                    value = subst(value, T("param", (p,)), args[p])
            try:
                for _, pieces in texts.alternatives(value):
                    if e.meta.name == "escape_like":
                        esc = args[params[1]]
                        value = value
                        decode_like(pieces, g, str(esc.args[0]) if esc.op == "const" else SYMBOLIC)
                    else:
                        decode(pieces, g)
                ctx.ok(f"site-{package(f)}", where)
            except Broken as x:
                ctx.bad(f"site-{package(f)}", where, e.loc or f.loc(), f"{f.short} quotes `{show(args[params[0]])}` with a function for standard literals: {x}")
            except Unknown as x:
                ctx.bad(f"site-{package(f)}", where, e.loc or f.loc(), f"{f.short}: cannot be shown to quote every text: {x}")
    ctx.count("uses of shared quoting functions in dialects where a backslash escapes", n)


def session(ctx: Ctx) -> None:
    "The MySQL session reads `\"` as identifier delimiter and backslash as escape."
    n = 0
    for f in ctx.prog.functions():
        if package(f) != "mysql" or f.parent is not None or "connection" not in f.module.name:
            continue
        if "connect(" not in ast.unparse(f.node):
            continue
        for e in events(ctx.run(f, f.cls, inline=lambda h, recv: h.name.startswith("_") or h.cls is None)):
            if e.op == "call" and e.args[0] == "aiomysql.connect":
                n += 1
                args = dict(e.args[2])
                text = " ".join(str(x) for x in consts(args["sql_mode"])) if "sql_mode" in args else ""
                ctx.check("ANSI_QUOTES" in text, "session", f.short, e.loc or f.loc(), "the MySQL session does not enable ANSI_QUOTES: quoted identifiers would be read as string literals")
                ctx.check("NO_BACKSLASH_ESCAPES" not in text, "session", f.short, e.loc or f.loc(), "the MySQL session disables backslash escapes, which the literals of the dialect contain")
    ctx.count("MySQL sessions opened", n)
    ctx.minimum("MySQL sessions opened", 1)


def check(ctx: Ctx) -> None:
    texts = Texts(ctx.prog)
    identifiers(ctx, texts)
    constant_names(ctx)
    literals(ctx, texts)
    patterns(ctx, texts)
    constants(ctx, texts)
    call_sites(ctx, texts)
    session(ctx)
