"""
SQL text of evaluated values: a value is spelled out into variants, each a sequence of literal text, holes (terms) and repetitions
(joined loops), under the conditions that select the variant. Used by rules that decide the structure of statements.
"""

from __future__ import annotations

import re
from typing import Iterator, Optional, Union

from .terms import T, neg, show, walk


class Hole:
    def __init__(self, term: T) -> None:
        self.term = term

    def __repr__(self) -> str:
        return "{" + show(self.term)[:60] + "}"


class Rep:
    "Repetition of an element joined by a separator; `path` holds the loops and conditions around the element."

    def __init__(self, sep: str, path: tuple, elem: list, seq: T) -> None:
        self.sep, self.path, self.elem, self.seq = sep, path, elem, seq

    @property
    def loops(self) -> list[tuple[T, T]]:
        return [(p.args[0], p.args[1]) for p in self.path if p.op == "each"]

    @property
    def conds(self) -> list[T]:
        return [p for p in self.path if p.op != "each"]

    def __repr__(self) -> str:
        return "<" + repr(self.elem) + " for " + show(self.seq)[:60] + ">"


Part = Union[str, Hole, Rep]


class Variant:
    def __init__(self, parts: list, pc: tuple) -> None:
        self.parts, self.pc = parts, pc

    def text(self) -> str:
        "Text with holes ⟨i⟩ and repetitions «i»."
        out = []
        for i, p in enumerate(self.parts):
            out.append(p if isinstance(p, str) else f"⟨{i}⟩" if isinstance(p, Hole) else f"«{i}»")
        return "".join(out)

    def part(self, i: Union[int, str]):
        return self.parts[int(i)]


LIMIT = 4096


def variants(t: T, pc: tuple = ()) -> list[Variant]:
    return [Variant(merge(p), c) for p, c in _text(t, pc)]


def consistent(pc: tuple) -> bool:
    s = set(pc)
    return not any(neg(c) in s for c in pc)


def merge(parts: list) -> list:
    out: list = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return out


def product(lists: list[list[tuple[list, tuple]]], pc: tuple) -> list[tuple[list, tuple]]:
    acc: list[tuple[list, tuple]] = [([], pc)]
    for alternatives in lists:
        nxt = []
        for p, c in acc:
            for q, d in alternatives:
                e = c + tuple(x for x in d if x not in c)
                if consistent(e):
                    nxt.append((p + q, e))
        acc = nxt
        if len(acc) > LIMIT:
            return acc[:LIMIT]
    return acc


def _text(t: T, pc: tuple) -> list[tuple[list, tuple]]:
    if t.op == "const":
        return [([str(t.args[0]) if t.args[0] is not None else ""], pc)]
    if t.op == "tmpl":
        return product([[([p], ())] if isinstance(p, str) else _text(p, ()) for p in t.args], pc)
    if t.op == "phi":
        c = t.args[0]
        out = []
        for x, d in ((t.args[1], c), (t.args[2], neg(c))):
            e = pc + ((d,) if d not in pc else ())
            if consistent(e):
                out += _text(x, e)
        return out
    if t.op == "ornone":
        return _text(t.args[0], pc)
    if t.op == "join":
        return _join(str(t.args[0].args[0]) if isinstance(t.args[0], T) and t.args[0].op == "const" else t.args[0] if isinstance(t.args[0], str) else None, t.args[1], pc, t)
    return [([Hole(t)], pc)]


def static(items: tuple) -> bool:
    return all(i.op in ("item", "discard") or i.op == "if" and static(i.args[1]) and static(i.args[2]) or i.op == "splice" and i.args[0].op == "phi" for i in items)


def _join(sep: Optional[str], seq: T, pc: tuple, whole: T) -> list[tuple[list, tuple]]:
    if sep is None:
        return [([Hole(whole)], pc)]
    if seq.op == "phi":
        c = seq.args[0]
        out = []
        for x, d in ((seq.args[1], c), (seq.args[2], neg(c))):
            e = pc + ((d,) if d not in pc else ())
            if consistent(e):
                out += _join(sep, x, e, whole)
        return out
    if seq.op in ("copy", "listof", "tupleof", "ornone") and isinstance(seq.args[0], T):
        return _join(sep, seq.args[0], pc, whole)
    if seq.op != "seq":
        return [([Rep(sep, (T("each", (seq, T("bv", (-1,)))),), [Hole(T("bv", (-1,)))], seq)], pc)]
    rows = _rows(sep, seq.args[1])
    out = []
    for elems, c in rows:
        e = pc + tuple(x for x in c if x not in pc)
        if not consistent(e):
            continue
        parts: list = []
        for i, el in enumerate(elems):
            if i:
                parts.append(sep)
            parts += el
        out.append((parts, e))
    return out


def _rows(sep: str, items: tuple) -> list[tuple[list[list], tuple]]:
    "Alternative lists of elements of a joined sequence."
    acc: list[tuple[list[list], tuple]] = [([], ())]

    def extend(alts: list[tuple[list[list], tuple]]) -> None:
        nonlocal acc
        nxt = []
        for es, c in acc:
            for fs, d in alts:
                e = c + tuple(x for x in d if x not in c)
                if consistent(e):
                    nxt.append((es + fs, e))
        acc = nxt[:LIMIT]

    for i in items:
        if i.op == "item":
            extend([([p], c) for p, c in _text(i.args[0], ())])
        elif i.op == "if":
            c = i.args[0]
            alts = [(r, (c,) + d) for r, d in _rows(sep, i.args[1])] + [(r, (neg(c),) + d) for r, d in _rows(sep, i.args[2])]
            extend(alts)
        elif i.op == "for":
            reps = [Rep(sep, path, el, T("seq", ("list", (i,)))) for path, el in _elements(i, ())]
            extend([([[r] for r in reps], ())])
        elif i.op == "splice":
            s = i.args[0]
            if s.op == "seq":
                extend(_rows(sep, s.args[1]))
            elif s.op == "phi":
                c = s.args[0]
                extend([(r, (c,) + d) for r, d in _rows(sep, (T("splice", (s.args[1],)),))] + [(r, (neg(c),) + d) for r, d in _rows(sep, (T("splice", (s.args[2],)),))])
            else:
                bv = T("bv", (-1,))
                extend([([[Rep(sep, (T("each", (s, bv)),), [Hole(bv)], s)]], ())])
    return acc


def _elements(i: T, path: tuple) -> Iterator[tuple[tuple, list]]:
    "Elements contributed by a loop, with the loops and conditions around each."
    if i.op == "for":
        # a loop that may end early has a condition that nothing decides
        ends = (T("ends", (i.args[1],)),) if len(i.args) > 3 else ()
        for x in i.args[2]:
            yield from _elements(x, path + (T("each", (i.args[0], i.args[1])),) + ends)
    elif i.op == "if":
        for x in i.args[1]:
            yield from _elements(x, path + (i.args[0],))
        for x in i.args[2]:
            yield from _elements(x, path + (neg(i.args[0]),))
    elif i.op == "item":
        for p, c in _text(i.args[0], ()):
            yield path + c, merge(p)
    elif i.op == "splice":
        yield path, [Rep("", (T("each", (i.args[0], T("bv", (-1,)))),), [Hole(T("bv", (-1,)))], i.args[0])]
