"""
Text functions as homomorphisms on characters. The evaluated result of a quoting function is a sequence of constant text and of
images of source texts under a map that replaces single characters (composed `replace`, `translate`, `re.sub` of one character,
joins over the characters of the text). Such a map is correct for every string if and only if it is correct for each character, so
the finite table of characters decides it; anything else is reported as not shown. `decode` reads the sequence with the lexical
grammar of a SQL dialect.
"""

from __future__ import annotations

import ast
import re
from typing import Iterator, Optional, Union

from .program import Module, Program
from .terms import T, is_const, neg, rewrite, show, subst

OTHER = "\ue000"
SYMBOLIC = "\ue001"
ALPHABET = [chr(i) for i in range(128)] + [OTHER, SYMBOLIC, "\u00a0", "\u2019", "\u02bc", "\uff07"]


class Unknown(Exception):
    "A transformation that is not a map on characters."


class Hom:
    "The image of a text under a map on characters."

    def __init__(self, src: T, table: Optional[dict[str, str]] = None, excluded: frozenset = frozenset()) -> None:
        self.src = src
        self.table = table or {}
        self.excluded = excluded

    def at(self, c: str) -> str:
        return self.table.get(c, c)

    def after(self, fn) -> "Hom":
        table = {}
        for c in ALPHABET:
            v = "".join(fn(x) for x in self.at(c))
            if v != c:
                table[c] = v
        return Hom(self.src, table, self.excluded)

    def __repr__(self) -> str:
        return f"{{{show(self.src)}: {self.table}}}"


Piece = Union[str, Hom]


def unit(pattern: object) -> bool:
    "True if a regular expression matches exactly one character, independent of its neighbours."
    try:
        import re._parser as sre  # type: ignore
    except ImportError:
        import sre_parse as sre  # type: ignore
    tree = sre.parse(pattern)

    def simple(t) -> bool:
        for op, av in t:
            name = str(op)
            if name in ("LITERAL", "IN", "NOT_LITERAL", "ANY"):
                continue
            if name == "SUBPATTERN":
                if not simple(av[-1]):
                    return False
                continue
            if name == "BRANCH":
                if not all(simple(b) for b in av[1]):
                    return False
                continue
            return False
        return True

    return simple(tree) and tree.getwidth() == (1, 1)


def repeated(pattern: str) -> Optional[str]:
    "The pattern of one character when the expression is a repetition of it."
    try:
        import re._parser as sre  # type: ignore
    except ImportError:
        import sre_parse as sre  # type: ignore
    tree = sre.parse(pattern)
    if len(tree) == 1 and str(tree[0][0]) == "MAX_REPEAT":
        p = pattern.rstrip("+*")
        if len(p) == len(pattern) - 1 and unit(p):
            return p
    return None


class Constants:
    "Values of constant expressions, of module variables, and of terms."

    def __init__(self, prog: Program) -> None:
        self.prog = prog

    def dotted(self, name: str) -> object:
        modname, var = name.rsplit(".", 1)
        m = self.prog.modules.get(modname)
        if m is None or var not in m.variables:
            raise Unknown(f"{name} is not a constant of the project")
        return self.node(m, m.variables[var])

    def node(self, m: Module, n: ast.AST, env: Optional[dict[str, object]] = None) -> object:
        env = env or {}
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            if n.id in m.variables:
                return self.node(m, m.variables[n.id])
            d = m.imports.get(n.id)
            if isinstance(d, str):
                return self.dotted(d)
            raise Unknown(f"name {n.id}")
        if isinstance(n, ast.JoinedStr):
            return "".join(str(self.node(m, v.value if isinstance(v, ast.FormattedValue) else v, env)) for v in n.values)
        if isinstance(n, ast.BinOp):
            a, b = self.node(m, n.left, env), self.node(m, n.right, env)
            if isinstance(n.op, ast.Add):
                return a + b  # type: ignore
            if isinstance(n.op, ast.Mult):
                return a * b  # type: ignore
            if isinstance(n.op, ast.BitOr):
                return {**a, **b}  # type: ignore
        if isinstance(n, ast.Dict):
            out: dict = {}
            for k, v in zip(n.keys, n.values):
                if k is None:
                    out.update(self.node(m, v, env))  # type: ignore
                else:
                    out[self.node(m, k, env)] = self.node(m, v, env)
            return out
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            return [self.node(m, e, env) for e in n.elts]
        if isinstance(n, (ast.DictComp, ast.ListComp, ast.SetComp, ast.GeneratorExp)) and len(n.generators) == 1 and not n.generators[0].ifs:
            g = n.generators[0]
            rows = self.node(m, g.iter, env)
            items = []
            for row in rows:  # type: ignore
                e = dict(env)
                if isinstance(g.target, ast.Name):
                    e[g.target.id] = row
                elif isinstance(g.target, ast.Tuple):
                    for t, v in zip(g.target.elts, row):
                        e[t.id] = v  # type: ignore
                items.append((self.node(m, n.key, e), self.node(m, n.value, e)) if isinstance(n, ast.DictComp) else self.node(m, n.elt, e))
            return dict(items) if isinstance(n, ast.DictComp) else items
        if isinstance(n, ast.Call):
            name = ast.unparse(n.func)
            args = [self.node(m, a, env) for a in n.args] if name != "re.compile" or not n.keywords else None
            if name == "str.maketrans" and args is not None:
                return str.maketrans(*args)  # type: ignore
            if name == "re.compile" and args is not None and len(args) == 1:
                return re.compile(args[0])  # type: ignore
            if name == "ord" and args is not None:
                return ord(args[0])  # type: ignore
            if name == "chr" and args is not None:
                return chr(args[0])  # type: ignore
            if name == "zip" and args is not None:
                return list(zip(*args))  # type: ignore
            if name == "dict" and args is not None and len(args) == 1 and not n.keywords:
                return dict(args[0])  # type: ignore
            if name in ("frozenset", "set", "list", "tuple") and args is not None and len(args) == 1:
                return list(args[0])  # type: ignore
            if isinstance(n.func, ast.Attribute) and n.func.attr == "items" and not n.args:
                return list(self.node(m, n.func.value, env).items())  # type: ignore
            if isinstance(n.func, ast.Attribute) and n.func.attr == "join" and len(n.args) == 1:
                return self.node(m, n.func.value, env).join(args[0])  # type: ignore
        raise Unknown(f"`{ast.unparse(n)[:60]}` is not a constant")

    def term(self, t: T) -> object:
        if t.op == "const":
            return t.args[0]
        if t.op == "global":
            return self.dotted(t.args[0])
        if t.op == "tmpl":
            return "".join(p if isinstance(p, str) else str(self.term(p)) for p in t.args)
        if t.op == "binop":
            a, b = self.term(t.args[1]), self.term(t.args[2])
            if t.args[0] == "Mult":
                return a * b  # type: ignore
            if t.args[0] == "Add":
                return a + b  # type: ignore
        if t.op == "phi":
            return self.term(t.args[1] if self.truth(t.args[0]) else t.args[2])
        if t.op == "seq":
            if t.args[0] == "dict":
                out: dict = {}
                for i in t.args[1]:
                    if i.op != "kv":
                        raise Unknown("a table that is not a constant")
                    out[self.term(i.args[0])] = self.term(i.args[1])
                return out
            return [x for i in t.args[1] for x in self.item(i)]
        if t.op == "tuple":
            return [self.term(x) for x in (t.args[0] if t.args and isinstance(t.args[0], tuple) else t.args)]
        if t.op == "sub":
            try:
                return self.term(t.args[0])[self.term(t.args[1])]  # type: ignore
            except (KeyError, IndexError, TypeError):
                raise Unknown(show(t))
        if t.op == "strop":
            recv = self.term(t.args[1])
            args = [self.term(a) for a in t.args[2]]
            if isinstance(recv, str) and t.args[0] in ("replace", "translate", "upper", "lower", "strip", "join", "format", "encode"):
                return getattr(recv, t.args[0])(*args)
        if t.op == "join":
            sep = self.term(t.args[0])
            rows = self.term(t.args[1])
            return sep.join(rows)  # type: ignore
        if t.op == "call" and isinstance(t.args[0], str):
            args = [self.term(a) for _, a in t.args[2]]
            name = t.args[0]
            if name == "str.maketrans":
                return str.maketrans(*args)  # type: ignore
            if name == "re.compile" and len(args) == 1:
                return re.compile(args[0])  # type: ignore
            if name == "ord":
                return ord(args[0])  # type: ignore
            if name == "chr":
                return chr(args[0])  # type: ignore
            if name in ("frozenset", "set", "list", "tuple") and len(args) == 1:
                return list(args[0])  # type: ignore
            if name == ".get" and t.args[1] is not None:
                return self.term(t.args[1]).get(*args)  # type: ignore
            if name == ".items" and t.args[1] is not None:
                return [list(kv) for kv in self.term(t.args[1]).items()]  # type: ignore
        if t.op == "fmt" and t.args:
            return str(self.term(t.args[0]))
        raise Unknown(show(t)[:80])

    def item(self, i: T) -> Iterator[object]:
        if i.op == "item":
            yield self.term(i.args[0])
        elif i.op == "if":
            for x in i.args[1] if self.truth(i.args[0]) else i.args[2]:
                yield from self.item(x)
        elif i.op == "for":
            for v in self.term(i.args[0]):  # type: ignore
                for x in i.args[2]:
                    yield from self.item(subst(x, i.args[1], T("const", (v,))))
        else:
            raise Unknown(show(i)[:80])

    def truth(self, c: T) -> bool:
        if c.op == "not":
            return not self.truth(c.args[0])
        if c.op == "and":
            return all(self.truth(x) for x in (c.args[0] if isinstance(c.args[0], (tuple, frozenset)) else c.args))
        if c.op == "or":
            return any(self.truth(x) for x in (c.args[0] if isinstance(c.args[0], (tuple, frozenset)) else c.args))
        if c.op == "cmp":
            a, b = self.term(c.args[1]), self.term(c.args[2])
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[c.args[0]]  # type: ignore
        if c.op == "in":
            return self.term(c.args[0]) in self.term(c.args[1])  # type: ignore
        if c.op == "call" and c.args[0] in ("re.search", "re.match", "re.fullmatch"):
            args = [self.term(a) for _, a in c.args[2]]
            return getattr(re, c.args[0][3:])(*args) is not None
        if c.op == "call" and c.args[0] in (".search", ".match", ".fullmatch") and c.args[1] is not None:
            p = self.term(c.args[1])
            return getattr(p, c.args[0][1:])(self.term(c.args[2][0][1])) is not None
        return bool(self.term(c))


class Env:
    def __init__(self, facts: tuple = (), excluded: Optional[dict[T, frozenset]] = None) -> None:
        self.facts = facts
        self.excluded = excluded or {}

    def known(self, c: T) -> Optional[bool]:
        for f, pol in self.facts:
            if f == c:
                return pol
            if f == neg(c):
                return not pol
        return None


class Texts:
    "Evaluates terms of string type into sequences of pieces, one for each combination of conditions."

    def __init__(self, prog: Program) -> None:
        self.consts = Constants(prog)

    # conditions

    def assume(self, env: Env, c: T, pol: bool) -> Env:
        excluded = dict(env.excluded)
        for src, gone in self.implied(c, pol):
            excluded[src] = excluded.get(src, frozenset()) | gone
            try:
                derived = list(self.alternatives(src, env))
            except Unknown:
                continue
            if len(derived) == 1:
                for p in derived[0][1]:
                    if isinstance(p, Hom):
                        bad = frozenset(x for x in ALPHABET if any(y in gone for y in p.at(x)))
                        excluded[p.src] = excluded.get(p.src, frozenset()) | bad
        return Env(env.facts + ((c, pol),), excluded)

    def implied(self, c: T, pol: bool) -> Iterator[tuple[T, frozenset]]:
        "Characters that a text cannot contain when the condition has the given outcome."
        if c.op == "not":
            yield from self.implied(c.args[0], not pol)
            return
        if c.op in ("and", "or"):
            parts = c.args[0] if c.args and isinstance(c.args[0], (tuple, frozenset)) else c.args
            if (c.op == "and") == pol:
                for p in parts:
                    yield from self.implied(p, pol)
            return
        if c.op == "cmp" and c.args[0] in ("is", "is not", "isnot", "==", "!=") and is_const(c.args[2], None):
            yield from self.implied(c.args[1], pol if c.args[0] not in ("is", "==") else not pol)
            return
        if c.op == "isnone":
            yield from self.implied(c.args[0], not pol)
            return
        try:
            if c.op == "in" and not pol:
                x = self.consts.term(c.args[0])
                if isinstance(x, str) and len(x) == 1:
                    yield c.args[1], frozenset({x})
                return
            if c.op == "exists" and not pol:
                coll, bv, body = c.args[0], c.args[1], c.args[2]
                if body.op == "in" and body.args[0] == bv:
                    yield body.args[1], frozenset(x for x in self.consts.term(coll) if isinstance(x, str) and len(x) == 1)  # type: ignore
                elif body.op == "in" and coll.op in ("param", "attr", "call"):
                    yield coll, frozenset(x for x in ALPHABET if x in self.consts.term(body.args[1]))  # type: ignore
                return
            if c.op == "call" and isinstance(c.args[0], str):
                name = c.args[0]
                args = [a for _, a in c.args[2]]
                if name in ("re.search", "re.fullmatch", "re.match") and len(args) == 2:
                    pat, src = self.consts.term(args[0]), args[1]
                elif name in (".search", ".fullmatch", ".match") and c.args[1] is not None and len(args) == 1:
                    compiled = self.consts.term(c.args[1])
                    pat, src = compiled.pattern, args[0]  # type: ignore
                elif name.startswith(".is") and pol and c.args[1] is not None:
                    yield from self.charclass(name[1:], c.args[1])
                    return
                else:
                    return
                if name.endswith("search") and not pol and unit(pat):
                    yield src, frozenset(x for x in ALPHABET if re.search(pat, x))  # type: ignore
                if name.endswith("fullmatch") and pol:
                    one = repeated(pat)  # type: ignore
                    if one is not None:
                        yield src, frozenset(x for x in ALPHABET if not re.fullmatch(one, x))
            if c.op == "strop" and pol and c.args[0].startswith("is"):
                yield from self.charclass(c.args[0], c.args[1])
        except Unknown:
            return

    @staticmethod
    def charclass(name: str, src: T) -> Iterator[tuple[T, frozenset]]:
        if name in ("isalnum", "isalpha", "isdigit", "isdecimal", "isnumeric"):
            yield src, frozenset(x for x in ALPHABET if not getattr(x, name)())
        elif name == "isidentifier":
            yield src, frozenset(x for x in ALPHABET if not ("a" + x).isidentifier())

    # values

    def alternatives(self, t: T, env: Optional[Env] = None) -> Iterator[tuple[Env, list[Piece]]]:
        env = env or Env()
        if t.op == "const":
            yield env, [t.args[0]] if isinstance(t.args[0], str) and t.args[0] else ([] if t.args[0] == "" else [str(t.args[0])])
            return
        if t.op == "phi":
            k = env.known(t.args[0])
            if k is None or k:
                yield from self.alternatives(t.args[1], env if k is not None else self.assume(env, t.args[0], True))
            if k is None or not k:
                yield from self.alternatives(t.args[2], env if k is not None else self.assume(env, t.args[0], False))
            return
        if t.op == "tmpl":
            yield from self.concat(list(t.args), env)
            return
        if t.op == "binop" and t.args[0] == "Add":
            yield from self.concat([t.args[1], t.args[2]], env)
            return
        if t.op == "binop" and t.args[0] == "Mult":
            yield env, [str(self.consts.term(t))]
            return
        if t.op == "fmt":
            yield from self.alternatives(t.args[0], env)
            return
        if t.op == "call" and t.args[0] in ("str", "format") and len(t.args[2]) == 1:
            yield from self.alternatives(t.args[2][0][1], env)
            return
        if t.op == "strop" or (t.op == "call" and isinstance(t.args[0], str) and t.args[0] in ("str.replace", "str.translate")):
            if t.op == "strop":
                name, recv, args = t.args[0], t.args[1], list(t.args[2])
            else:
                name, recv, args = t.args[0][4:], t.args[2][0][1], [a for _, a in t.args[2][1:]]
            if name == "replace" and len(args) == 2:
                yield from self.mapped(recv, env, self.replace(args[0], args[1]))
                return
            if name == "translate" and len(args) == 1:
                table = self.consts.term(args[0])
                if not isinstance(table, dict):
                    raise Unknown("translation table")
                yield from self.mapped(recv, env, lambda c: c.translate(table))
                return
        if t.op == "join":
            yield from self.join(t.args[0], t.args[1], env)
            return
        if t.op == "call" and t.args[0] == "re.sub" and len(t.args[2]) == 3:
            pat, repl, src = (a for _, a in t.args[2])
            yield from self.mapped(src, env, self.sub(self.consts.term(pat), repl))
            return
        if t.op == "call" and t.args[0] == ".sub" and t.args[1] is not None and len(t.args[2]) == 2:
            pat = self.consts.term(t.args[1])
            (_, repl), (_, src) = t.args[2]
            yield from self.mapped(src, env, self.sub(getattr(pat, "pattern", pat), repl))
            return
        if t.op == "loopout":
            coll, bv, car, start, body = t.args[:5]
            try:
                rows = self.consts.term(coll)
            except Unknown:
                rows = None
            if rows is not None:
                out = start
                for v in rows:  # type: ignore
                    out = subst(subst(body, bv, T("const", (v,))), car, out) if not isinstance(v, list) else self.unpacked(body, bv, v, car, out)
                yield from self.alternatives(out, env)
                return
            # accumulation of the image of each character
            if body.op == "tmpl" and body.args and body.args[0] == car and not any(x == car for x in body.args[1:]):
                image = T("tmpl", body.args[1:])
            elif body.op == "binop" and body.args[0] == "Add" and body.args[1] == car:
                image = body.args[2]
            elif body.op == "phi":
                image = self.accumulated(body, car)
            else:
                raise Unknown(show(t)[:80])
            for e, head in self.alternatives(start, env):
                for e2, tail in self.mapped(coll, e, self.image(bv, image)):
                    yield e2, head + tail
            return
        if t.op in ("or", "listof", "seq", "sub") or (t.op == "strop"):
            if t.op in ("sub", "strop"):
                yield env, [Hom(t, {}, env.excluded.get(t, frozenset()))]
                return
            raise Unknown(show(t)[:80])
        yield env, [Hom(t, {}, env.excluded.get(t, frozenset()))]

    def unpacked(self, body: T, bv: T, v: list, car: T, out: T) -> T:
        def fn(x: T) -> Optional[T]:
            if x.op in ("item", "sub", "pos", "unpack") and len(x.args) == 2 and x.args[0] == bv:
                i = x.args[1].args[0] if isinstance(x.args[1], T) else x.args[1]
                if isinstance(i, int):
                    return T("const", (v[i],))
            return None

        return subst(rewrite(body, fn), car, out)

    def accumulated(self, body: T, car: T) -> T:
        if body.op == "phi":
            return T("phi", (body.args[0], self.accumulated(body.args[1], car), self.accumulated(body.args[2], car)))
        if body == car:
            return T("const", ("",))
        if body.op == "tmpl" and body.args and body.args[0] == car:
            return T("tmpl", body.args[1:])
        raise Unknown(show(body)[:80])

    def replace(self, old: T, new: T):
        a, b = self.consts.term(old), self.consts.term(new)
        if not isinstance(a, str) or not isinstance(b, str) or len(a) != 1:
            raise Unknown(f"replaces {a!r}")
        return lambda c: c.replace(a, b)

    def sub(self, pattern: object, repl: T):
        if not isinstance(pattern, str) or not unit(pattern):
            raise Unknown(f"pattern {pattern!r} does not match single characters")
        r = self.consts.term(repl)
        if not isinstance(r, str):
            raise Unknown("replacement")
        return lambda c: re.sub(pattern, r, c)

    def image(self, bv: T, item: T):
        def fn(c: str) -> str:
            v = self.consts.term(subst(item, bv, T("const", (c,))))
            if not isinstance(v, str):
                raise Unknown(show(item)[:80])
            return v

        return fn

    def mapped(self, src: T, env: Env, fn) -> Iterator[tuple[Env, list[Piece]]]:
        for e, ps in self.alternatives(src, env):
            out: list[Piece] = []
            for p in ps:
                if isinstance(p, str):
                    out.append("".join(fn(c) for c in p))
                else:
                    out.append(p.after(fn))
            yield e, out

    def join(self, sep: T, seq: T, env: Env) -> Iterator[tuple[Env, list[Piece]]]:
        s = self.consts.term(sep)
        if seq.op == "call" and seq.args[0] == ".split" and len(seq.args[2]) == 1:
            d = self.consts.term(seq.args[2][0][1])
            if isinstance(d, str) and len(d) == 1 and isinstance(s, str):
                yield from self.mapped(seq.args[1], env, lambda c: c.replace(d, s))
                return
        if s == "" and seq.op in ("param", "attr"):
            yield from self.alternatives(seq, env)
            return
        if s == "" and seq.op == "seq" and len(seq.args[1]) == 1 and seq.args[1][0].op == "for":
            loop = seq.args[1][0]
            items = loop.args[2]

            def fn(c: str) -> str:
                out = ""
                for i in items:
                    for v in self.consts.item(subst(i, loop.args[1], T("const", (c,)))):
                        if not isinstance(v, str):
                            raise Unknown("joined value")
                        out += v
                return out

            yield from self.mapped(loop.args[0], env, fn)
            return
        if seq.op == "seq" and all(i.op == "item" for i in seq.args[1]):
            parts: list = []
            for k, i in enumerate(seq.args[1]):
                if k and s:
                    parts.append(s)
                parts.append(i.args[0])
            yield from self.concat(parts, env)
            return
        raise Unknown(show(T("join", (sep, seq)))[:80])

    def concat(self, parts: list, env: Env) -> Iterator[tuple[Env, list[Piece]]]:
        if not parts:
            yield env, []
            return
        head, rest = parts[0], parts[1:]
        for e, ps in [(env, [head])] if isinstance(head, str) else self.alternatives(head, env):
            for e2, qs in self.concat(rest, e):
                yield e2, list(ps) + qs


# SQL lexical grammars

class Grammar:
    """
    :param escapes: What a backslash and a character stand for inside a literal; `None` if backslash is an ordinary character.
    :param doubling: Whether two quotes stand for one inside a literal.
    """

    def __init__(self, name: str, escapes: Optional[dict[str, str]], doubling: bool = True, ident: str = '"', default: str = "char") -> None:
        self.name, self.escapes, self.doubling, self.ident, self.default = name, escapes, doubling, ident, default


COMMON = {"b": "\b", "n": "\n", "r": "\r", "t": "\t", "\\": "\\", "'": "'", '"': '"'}
STANDARD = Grammar("standard SQL", None)
EXTENDED = Grammar("PostgreSQL E''", {**COMMON, "f": "\f", **{d: "?" for d in "01234567xuU"}})
MYSQL = Grammar("MySQL", {**COMMON, "0": "\0", "Z": "\x1a", "%": "\\%", "_": "\\_"}, ident='"')
SNOWFLAKE = Grammar("Snowflake", {**COMMON, "f": "\f", "0": "\0", **{d: "?" for d in "1234567xu"}})
DELTA = Grammar("Databricks SQL", {**COMMON, "0": "\0", "Z": "\x1a", "%": "\\%", "_": "\\_", **{d: "?" for d in "1234567uU"}}, doubling=False)


class Token:
    "`kind` is raw, ident or literal; `content` is constant text and source texts, decoded."

    def __init__(self, kind: str) -> None:
        self.kind = kind
        self.content: list = []

    def add(self, c: object) -> None:
        if isinstance(c, str) and self.content and isinstance(self.content[-1], str):
            self.content[-1] += c
        else:
            self.content.append(c)

    def __repr__(self) -> str:
        return f"{self.kind}({''.join(c if isinstance(c, str) else '{' + show(c) + '}' for c in self.content)})"


class Broken(Exception):
    pass


def name_of(c: str) -> str:
    return {OTHER: "an ordinary character", SYMBOLIC: "the escape character"}.get(c, repr(c))


def decode(pieces: list, grammar: Grammar, idents: str = '"`') -> list[Token]:
    "Reads the pieces as SQL text; raises `Broken` if a source text does not decode to itself inside its token."
    toks: list[Token] = []
    state = "out"  # out, in, pending (a delimiter was read), escape
    delim = ""
    g = grammar

    def feed(c: str, state: str, delim: str, emit) -> str:
        "Reads one character inside a token; returns the state that follows."
        if state == "escape":
            if g.escapes is None:
                raise Broken("escape")
            emit(g.escapes.get(c, c))
            return "in"
        if state == "pending":
            if c == delim and (delim != "'" or g.doubling):
                emit(c)
                return "in"
            return "closed"
        if c == delim:
            return "pending"
        if c == "\\" and delim == "'" and g.escapes is not None:
            return "escape"
        emit(c)
        return "in"

    for p in pieces:
        if isinstance(p, str):
            for k, c in enumerate(p):
                if state != "out":
                    state = feed(c, state, delim, toks[-1].add)
                    if state == "closed":
                        state = "out"
                        g = grammar
                    else:
                        continue
                if c == "'" or c in idents:
                    state, delim = "in", c
                    if c == "'" and toks and toks[-1].kind == "raw" and toks[-1].content and isinstance(toks[-1].content[-1], str) and re.search(r"(^|\W)E$", toks[-1].content[-1]):
                        g = EXTENDED if grammar is STANDARD else grammar
                        toks[-1].content[-1] = toks[-1].content[-1][:-1]
                    toks.append(Token("literal" if c == "'" else "ident"))
                    if not (len(toks) > 1 and toks[-2].kind == "raw" and not "".join(str(x) for x in toks[-2].content)):
                        pass
                else:
                    if not toks or toks[-1].kind != "raw":
                        toks.append(Token("raw"))
                    toks[-1].add(c)
        else:
            if state == "pending":
                state = "out"
                g = grammar
            if state == "escape":
                raise Broken(f"`{show(p.src)}` follows an escape character")
            if state == "out":
                if not toks or toks[-1].kind != "raw":
                    toks.append(Token("raw"))
                toks[-1].add(p.src)
                continue
            for c in ALPHABET:
                if c in p.excluded:
                    continue
                s, out = "in", []
                for x in p.at(c):
                    s = feed(x, s, delim, out.append)
                    if s == "closed":
                        break
                got = "".join(out)
                if s == "closed":
                    raise Broken(f"{name_of(c)} in `{show(p.src)}` becomes `{p.at(c)}`, which closes the {'literal' if delim == chr(39) else 'identifier'} opened by `{delim}`")
                if s == "pending":
                    raise Broken(f"{name_of(c)} in `{show(p.src)}` is written as `{p.at(c)}`, which closes the {'literal' if delim == chr(39) else 'identifier'} opened by `{delim}`")
                if s == "escape":
                    raise Broken(f"{name_of(c)} in `{show(p.src)}` is written as `{p.at(c)}`, whose backslash escapes what follows in {g.name}")
                if got != c:
                    raise Broken(f"{name_of(c)} in `{show(p.src)}` is written as `{p.at(c)}`, which {g.name} reads as {got!r}")
            toks[-1].add(p.src)
    if state == "in" or state == "escape":
        raise Broken(f"the {'literal' if delim == chr(39) else 'identifier'} opened by `{delim}` is not closed")
    return [t for t in toks if t.kind != "raw" or any(t.content)]


def decode_like(pieces: list, grammar: Grammar, esc: str) -> list:
    "Reads the pieces as the inside of a LIKE pattern literal with an escape character; the content must be matched literally."
    out: list = []
    for p in pieces:
        if isinstance(p, str):
            out.append(p)
            continue
        for c in ALPHABET:
            if c in p.excluded:
                continue
            lit = decode(["'", p.at(c), "'"], grammar)
            if len(lit) != 1 or lit[0].kind != "literal":
                raise Broken(f"{name_of(c)} in `{show(p.src)}` is written as `{p.at(c)}`, which closes the literal")
            text = "".join(lit[0].content)
            got, i = "", 0
            while i < len(text):
                x = text[i]
                if x == esc:
                    if i + 1 >= len(text):
                        raise Broken(f"{name_of(c)} in `{show(p.src)}` leaves an escape character that protects what follows")
                    i += 1
                    got += text[i]
                elif x in "%_":
                    raise Broken(f"{name_of(c)} in `{show(p.src)}` is written as `{p.at(c).replace(SYMBOLIC, '~')}`, which matches other text")
                else:
                    got += x
                i += 1
            if got != c:
                raise Broken(f"{name_of(c)} in `{show(p.src)}` is written as `{p.at(c).replace(SYMBOLIC, '~')}`, which matches {got.replace(SYMBOLIC, '~')!r}")
        out.append(p.src)
    return out
