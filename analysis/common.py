"Helpers shared by the rules: path conditions of subterms, implied facts, guards, types of receivers, SQL text of values."

from __future__ import annotations

from typing import Callable, Iterable, Iterator, Optional

from .framework import Ctx, events
from .program import ClassInfo, FuncInfo, Program
from .terms import T, canon, children, const, literals, neg, show, walk
from .types import Ty, alts, strip_none


def guarded(t: T, pc: tuple = ()) -> Iterator[tuple[T, tuple]]:
    "Subterms of a value with the conditions under which they contribute to it (conditions themselves are not descended into)."
    yield t, pc
    if t.op == "phi":
        yield from guarded(t.args[1], pc + (t.args[0],))
        yield from guarded(t.args[2], pc + (neg(t.args[0]),))
        return
    if t.op == "if":
        for i in t.args[1]:
            yield from guarded(i, pc + (t.args[0],))
        for i in t.args[2]:
            yield from guarded(i, pc + (neg(t.args[0]),))
        return
    if t.op == "for":
        yield from guarded(t.args[0], pc)
        for i in t.args[2]:
            yield from guarded(i, pc + (T("each", (t.args[0], t.args[1])),))
        return
    if t.op == "ornone":
        yield from guarded(t.args[0], pc)
        return
    for c in children(t):
        yield from guarded(c, pc)


def nonempty(src: T) -> list[T]:
    "Conditions implied by the collection having an element."
    if src.op == "phi":
        if empty(src.args[2]):
            return [src.args[0]] + nonempty(src.args[1])
        if empty(src.args[1]):
            return [neg(src.args[0])] + nonempty(src.args[2])
        return []
    if src.op in ("copy", "sorted", "reversed", "pos", "listof", "setof", "tupleof") and src.args and isinstance(src.args[0], T):
        return nonempty(src.args[0])
    if src.op == "seq" and len(src.args[1]) == 1:
        i = src.args[1][0]
        if i.op == "if":
            if not i.args[2]:
                return [i.args[0]]
            if not i.args[1]:
                return [neg(i.args[0])]
        if i.op == "for":
            out = nonempty(i.args[0])
            if len(i.args[2]) == 1:
                inner = i.args[2][0]
                if inner.op == "if":
                    # the condition holds for some element; it is global unless it mentions the element
                    for c, a, b in ((inner.args[0], inner.args[1], inner.args[2]), (neg(inner.args[0]), inner.args[2], inner.args[1])):
                        if a and not b:
                            out += [l for l in conj_parts(c) if not any(x == i.args[1] for x in walk(l))]
            return out
        if i.op == "splice":
            return nonempty(i.args[0])
    return []


def conj_parts(c: T) -> list[T]:
    if c.op == "and":
        return [x for a in c.args for x in conj_parts(a)]
    return [c]


def empty(t: T) -> bool:
    return (t.op == "seq" and not t.args[1]) or (t.op == "const" and not t.args[0])


def implied(pc: Iterable[T]) -> set[tuple[T, bool]]:
    "Atomic facts implied by path conditions, with bound variables left as they are."
    out: set[tuple[T, bool]] = set()
    for c in pc:
        if c.op == "each":
            for n in nonempty(c.args[0]):
                out |= set(implied([n]))
            continue
        for a, pol in literals(c):
            out.add((a, pol))
            if pol and a.op in ("seq", "phi"):
                for n in nonempty(a):
                    out |= set(implied([n]))
    return out


def receiver_classes(t: T, prog: Program) -> list[ClassInfo]:
    return [a.cls for a in alts(strip_none(t.ty)) if a.cls is not None]


def is_self_attr(t: T, *names: str) -> bool:
    "self.a.b.c"
    for n in reversed(names):
        if t.op != "attr" or t.args[1] != n:
            return False
        t = t.args[0]
    return t.op == "param" and t.args[0] == "self" or t.op == "self"


def method_name(t: T) -> str:
    "Name of the method or function called by a call term."
    return str(t.args[0]).split(".")[-1].split(":")[-1] if t.op == "call" else ""


def consts(t: T) -> Iterator[str]:
    "String constants and literal template parts."
    for x in walk(t):
        if x.op == "const" and isinstance(x.args[0], str):
            yield x.args[0]
        elif x.op == "tmpl":
            for p in x.args:
                if isinstance(p, str):
                    yield p


def hierarchy(prog: Program, name: str) -> list[ClassInfo]:
    b = prog.find_class(name)
    return [b] + b.all_subclasses()


# -- three-valued evaluation under assumptions on some subterms

def value_under(t: T, env: dict[T, T]) -> T:
    "Simplifies a value when the given subterms have the given (constant) values."
    if t in env:
        return env[t]
    if t.op == "phi":
        b = truth_under(t.args[0], env)
        if b is True:
            return value_under(t.args[1], env)
        if b is False:
            return value_under(t.args[2], env)
        return T("phi", (t.args[0], value_under(t.args[1], env), value_under(t.args[2], env)), t.ty)
    if t.op in ("copy", "ornone") and t.args and isinstance(t.args[0], T):
        return value_under(t.args[0], env)
    return t


def decided(t: T) -> bool:
    return t.op in ("const", "enum", "extern")


def truth_under(c: T, env: dict[T, T]) -> Optional[bool]:
    "Truth value of a condition, or None if it depends on something else."
    if c in env and decided(env[c]):
        return truth_const(env[c])
    if c.op == "not":
        r = truth_under(c.args[0], env)
        return None if r is None else not r
    if c.op == "and":
        rs = [truth_under(a, env) for a in c.args]
        return False if False in rs else None if None in rs else True
    if c.op == "or":
        rs = [truth_under(a, env) for a in c.args]
        return True if True in rs else None if None in rs else False
    if c.op == "isnone":
        v = value_under(c.args[0], env)
        if v.op == "const":
            return v.args[0] is None
        if v.op in ("enum", "seq", "new", "tmpl"):
            return False
        return None
    if c.op == "cmp" and c.args[0] in ("==", "is", "!=", "is not"):
        a, b = value_under(c.args[1], env), value_under(c.args[2], env)
        if decided(a) and decided(b):
            r = a == b
            return r if c.args[0] in ("==", "is") else not r
        return None
    if c.op == "in":
        a, s = value_under(c.args[0], env), value_under(c.args[1], env)
        if decided(a) and s.op == "seq" and all(i.op == "item" for i in s.args[1]):
            vs = [value_under(i.args[0], env) for i in s.args[1]]
            if all(decided(v) for v in vs):
                return a in vs
        return None
    if c.op == "phi":
        b = truth_under(c.args[0], env)
        if b is True:
            return truth_under(c.args[1], env)
        if b is False:
            return truth_under(c.args[2], env)
        x, y = truth_under(c.args[1], env), truth_under(c.args[2], env)
        return x if x == y else None
    v = value_under(c, env)
    if v is not c and v != c:
        return truth_under(v, env) if not decided(v) else truth_const(v)
    if decided(c):
        return truth_const(c)
    if c.op == "seq":
        return bool(c.args[1]) if all(i.op == "item" for i in c.args[1]) else None
    if c.op == "new":
        return True
    return None


def truth_const(v: T) -> bool:
    return True if v.op in ("enum", "extern") else bool(v.args[0])


def pc_under(pc: Iterable[T], env: dict[T, T]) -> Optional[bool]:
    "Whether the path is taken: True, False, or None if undecided."
    rs = [(None if can_yield(c.args[0], env) else False) if c.op == "each" else None if c.op == "exc" else truth_under(c, env) for c in pc]
    return False if False in rs else None if None in rs else True


def can_yield(src: T, env: dict[T, T]) -> bool:
    "False if the collection is certainly empty."
    if src.op in ("copy", "sorted", "reversed", "pos", "listof", "setof", "tupleof", "deepcopy") and src.args and isinstance(src.args[0], T):
        return can_yield(src.args[0], env)
    if src.op == "phi":
        b = truth_under(src.args[0], env)
        return (b is not False and can_yield(src.args[1], env)) or (b is not True and can_yield(src.args[2], env))
    if src.op == "seq":
        return any(item_yields(i, env) for i in src.args[1])
    if src.op == "const":
        return bool(src.args[0])
    return True


def item_yields(i: T, env: dict[T, T]) -> bool:
    if i.op == "if":
        b = truth_under(i.args[0], env)
        return (b is not False and any(item_yields(x, env) for x in i.args[1])) or (b is not True and any(item_yields(x, env) for x in i.args[2]))
    if i.op == "for":
        return can_yield(i.args[0], env) and any(item_yields(x, env) for x in i.args[2])
    if i.op == "splice":
        return can_yield(i.args[0], env)
    if i.op == "discard":
        return False
    return True


def enum_members(c: ClassInfo) -> list[str]:
    return [n for n in c.values if not n.startswith("_")]


def relevant(items: Iterable[T], keep: Callable[[T], bool]) -> tuple[T, ...]:
    "The trace without the events that a rule is not concerned with."
    out: list[T] = []
    for i in items:
        if i.op == "for":
            body = relevant(i.args[2], keep)
            if body:
                out.append(T("for", (i.args[0], i.args[1], body) + i.args[3:], loc=i.loc))
        elif i.op == "if":
            a, b = relevant(i.args[1], keep), relevant(i.args[2], keep)
            if a or b:
                out.append(T("if", (i.args[0], a, b)))
        elif i.op != "discard" and keep(i):
            out.append(i)
    return tuple(out)


def paths(items: tuple[T, ...], limit: int = 4096) -> list[list[tuple[T, tuple]]]:
    """
    Event sequences along the paths of a trace, each event with the conditions decided on its path.

    A loop contributes no iteration, one iteration, or two iterations.
    """
    out: list[tuple[list, tuple]] = [([], ())]

    def extend(prefixes: list[tuple[list, tuple]], its: tuple[T, ...]) -> list[tuple[list, tuple]]:
        cur = prefixes
        for i in its:
            if i.op == "if":
                nxt: list[tuple[list, tuple]] = []
                for evs, pc in cur:
                    if (i.args[0] in pc):
                        nxt += extend([(evs, pc)], i.args[1])
                    elif neg(i.args[0]) in pc:
                        nxt += extend([(evs, pc)], i.args[2])
                    else:
                        nxt += extend([(evs, pc + (i.args[0],))], i.args[1])
                        nxt += extend([(evs, pc + (neg(i.args[0]),))], i.args[2])
                cur = nxt
            elif i.op == "for":
                once = extend(cur, i.args[2])
                cur = cur + once + extend(once, i.args[2])
            else:
                cur = [(evs + [(i, pc)], pc) for evs, pc in cur]
            if len(cur) > limit:
                from .program import AnalysisError

                raise AnalysisError("too many paths through a trace")
        return cur

    return [evs for evs, _ in extend(out, items)]
