"Value-graph terms produced by the abstract evaluator."

from __future__ import annotations

import itertools
from typing import Callable, Iterable, Iterator, Optional

from .types import ANY, BOOL, STR, Ty


class T:
    __slots__ = ("op", "args", "ty", "loc", "pc", "meta", "_h")

    def __init__(self, op: str, args: tuple = (), ty: Ty = ANY, loc: Optional[str] = None, pc: tuple = (), meta: object = None) -> None:
        self.op = op
        self.args = args
        self.ty = ty
        self.loc = loc
        self.pc = pc
        self.meta = meta
        self._h: Optional[int] = None

    def __eq__(self, other: object) -> bool:
        return self is other or (isinstance(other, T) and self.op == other.op and hash(self) == hash(other) and self.args == other.args)

    def __hash__(self) -> int:
        if self._h is None:
            self._h = hash((self.op, self.args))
        return self._h

    def with_ty(self, ty: Ty) -> "T":
        t = T(self.op, self.args, ty, self.loc, self.pc, self.meta)
        return t

    def __repr__(self) -> str:
        return show(self)


TRUE = T("const", (True,), BOOL)
FALSE = T("const", (False,), BOOL)
NONE_T = T("const", (None,), Ty("none"))
_uid = itertools.count(1)


def uid() -> int:
    return next(_uid)


def const(v: object) -> T:
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if v is None:
        return NONE_T
    return T("const", (v,), Ty("ext", type(v).__name__))


def is_const(t: T, v: object = ...) -> bool:
    if t.op != "const":
        return False
    return True if v is ... else (type(t.args[0]) is type(v) and t.args[0] == v)


def tmpl(parts: Iterable[object], loc: Optional[str] = None) -> T:
    out: list[object] = []
    for p in parts:
        if isinstance(p, T):
            if p.op == "tmpl":
                sub: list[object] = list(p.args)
            elif p.op == "const" and isinstance(p.args[0], (str, int)) and not isinstance(p.args[0], bool):
                sub = [str(p.args[0])]
            else:
                sub = [p]
        else:
            sub = [p]
        for s in sub:
            if isinstance(s, str):
                if not s:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + s
                    continue
            out.append(s)
    if not out:
        return const("")
    if len(out) == 1:
        if isinstance(out[0], str):
            return const(out[0])
    return T("tmpl", tuple(out), STR, loc)


def neg(c: T) -> T:
    if c.op == "not":
        return c.args[0]
    if c.op == "const":
        return const(not c.args[0])
    return T("not", (c,), BOOL, c.loc)


def conj(parts: Iterable[T]) -> T:
    out: list[T] = []
    for p in parts:
        sub = list(p.args) if p.op == "and" else [p]
        for s in sub:
            if is_const(s, True):
                continue
            if is_const(s, False):
                return FALSE
            if s not in out:
                out.append(s)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", tuple(out), BOOL)


def disj(parts: Iterable[T]) -> T:
    out: list[T] = []
    for p in parts:
        sub = list(p.args) if p.op == "or" else [p]
        for s in sub:
            if is_const(s, False):
                continue
            if is_const(s, True):
                return TRUE
            if s not in out:
                out.append(s)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return T("or", tuple(out), BOOL)


def phi(c: T, a: T, b: T) -> T:
    if a == b:
        return a
    if is_const(c, True):
        return a
    if is_const(c, False):
        return b
    if is_const(a, True) and is_const(b, False):
        return c
    if is_const(a, False) and is_const(b, True):
        return neg(c)
    boolish = lambda t: t.ty == BOOL or t.op in ("not", "and", "or", "cmp", "isnone", "in", "isinstance")
    if is_const(b, False) and boolish(a):
        return conj([c, a])
    if is_const(a, False) and boolish(b):
        return conj([neg(c), b])
    if is_const(a, True) and boolish(b):
        return disj([c, b])
    if is_const(b, True) and boolish(a):
        return disj([neg(c), a])
    if c.op == "not":
        return phi(c.args[0], b, a)
    from .types import union
    return T("phi", (c, a, b), union([a.ty, b.ty]), a.loc)


def literals(c: T, pol: bool = True) -> frozenset:
    "Atomic facts implied by the condition having the truth value `pol`."
    if c.op == "not":
        return literals(c.args[0], not pol)
    if c.op == "and":
        if pol:
            return frozenset().union(*[literals(a, True) for a in c.args])
        return frozenset([(c, False)])
    if c.op == "or":
        if not pol:
            return frozenset().union(*[literals(a, False) for a in c.args])
        return frozenset([(c, True)])
    return frozenset([(c, pol)])


def children(t: T) -> Iterator[T]:
    def go(x: object) -> Iterator[T]:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                yield from go(y)
    for a in t.args:
        yield from go(a)


def walk(t: T) -> Iterator[T]:
    work = [t]
    while work:
        x = work.pop()
        yield x
        work.extend(children(x))


def contains(t: T, sub: T) -> bool:
    return any(x == sub for x in walk(t))


def rewrite(t: T, fn: Callable[[T], Optional[T]]) -> T:
    memo: dict[int, T] = {}

    def go_any(x: object) -> object:
        if isinstance(x, T):
            return go(x)
        if isinstance(x, tuple):
            return tuple(go_any(y) for y in x)
        return x

    def go(x: T) -> T:
        k = id(x)
        if k in memo:
            return memo[k]
        r = fn(x)
        if r is None:
            na = tuple(go_any(a) for a in x.args)
            if na == x.args:
                r = x
            elif x.op == "tmpl":
                r = tmpl(na, x.loc)
            elif x.op == "phi":
                r = phi(*na)
                if r.ty.kind == "any":
                    r = r.with_ty(x.ty)
            else:
                r = T(x.op, na, x.ty, x.loc, x.pc, x.meta)
        memo[k] = r
        return r

    return go(t)


def closure_env(t: T) -> dict:
    "The variables in effect in the body of a function object."
    env = dict(t.meta or {})  # type: ignore
    env.update(t.args[2])  # type: ignore
    return env


def subst(t: T, old: T, new: T) -> T:
    return rewrite(t, lambda x: new if x == old else None)


def canon(t: T) -> T:
    "Renumbers bound variables in order of occurrence so that alpha-equivalent terms are equal."
    m: dict[object, int] = {}

    def fn(x: T) -> Optional[T]:
        if x.op in ("bv", "carried"):
            k = x.args
            if k not in m:
                m[k] = len(m)
            return T(x.op, ("#", m[k]), x.ty, x.loc)
        return None

    return rewrite(t, fn)


def show(x: object, depth: int = 0) -> str:
    if not isinstance(x, T):
        if isinstance(x, tuple):
            return "(" + ", ".join(show(y, depth) for y in x) + ")"
        return getattr(x, "name", None) or repr(x)
    if depth > 12:
        return "…"
    a = x.args
    d = depth + 1
    if x.op == "const":
        return repr(a[0])
    if x.op == "param":
        return str(a[0])
    if x.op == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if x.op == "bv":
        return f"v{a[-1]}"
    if x.op == "tmpl":
        return "f\"" + "".join(p.replace("\n", "\\n") if isinstance(p, str) else "{" + show(p, d) + "}" for p in a) + "\""
    if x.op == "call":
        args = ", ".join(f"{k}={show(v, d)}" for k, v in a[2])
        recv = f"{show(a[1], d)}." if a[1] is not None else ""
        return f"{recv}{a[0]}({args})"
    if x.op == "phi":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if x.op == "not":
        return f"not {show(a[0], d)}"
    if x.op in ("and", "or"):
        return "(" + f" {x.op} ".join(show(y, d) for y in a) + ")"
    if x.op == "cmp":
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if x.op == "isnone":
        return f"({show(a[0], d)} is None)"
    if x.op == "seq":
        return f"{a[0]}[" + ", ".join(show(y, d) for y in a[1]) + "]"
    if x.op == "item":
        return show(a[0], d)
    if x.op == "for":
        return f"for v{a[1].args[-1]} in {show(a[0], d)}: [" + ", ".join(show(y, d) for y in a[2]) + "]"
    if x.op == "if":
        e = (" else [" + ", ".join(show(y, d) for y in a[2]) + "]") if a[2] else ""
        return f"if {show(a[0], d)}: [" + ", ".join(show(y, d) for y in a[1]) + "]" + e
    if x.op == "join":
        return f"{show(a[0], d)}.join({show(a[1], d)})"
    return f"{x.op}(" + ", ".join(show(y, d) for y in a) + ")"
