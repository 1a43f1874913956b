"""
Structure of SELECT statements held in evaluated values: items, relations, joins and conditions, with names or values embedded as terms.
"""

from __future__ import annotations

import re
from typing import Iterator, Optional

from .sqltext import Hole, Rep, Variant
from .terms import T

BASE = 0xE000
LEX = re.compile(
    r"(?P<ws>\s+|--[^\n]*)|(?P<str>'(?:[^']|'')*')|(?P<qid>\"(?:[^\"]|\"\")*\"|`[^`]*`|\[[A-Za-z_][^\]]*\])|(?P<word>[A-Za-z_][\w$]*)|(?P<num>\d+(?:\.\d+)?)"
    r"|(?P<hole>[\ue000-\uf8ff])|(?P<op><>|!=|<=|>=|\|\||::|.)",
    re.DOTALL,
)
CLAUSES = ("from", "where", "group", "having", "order", "limit", "offset", "fetch", "union")
JOINS = {"join", "inner", "left", "right", "full", "cross", "outer", "natural", "lateral"}
NOT_ALIAS = JOINS | set(CLAUSES) | {"on", "using", "end", "null", "and", "or", "not", "as", "asc", "desc"}


class Unparsed(Exception):
    pass


class Tok:
    __slots__ = ("kind", "text", "parts")

    def __init__(self, kind: str, text: str, parts: tuple) -> None:
        self.kind, self.text, self.parts = kind, text, parts

    @property
    def low(self) -> str:
        return self.text.lower() if self.kind == "word" else self.text

    def is_op(self, *texts: str) -> bool:
        return self.kind == "op" and self.text in texts

    def is_word(self, *texts: str) -> bool:
        return self.kind == "word" and self.text.lower() in texts

    def __repr__(self) -> str:
        return self.text if self.kind not in ("hole", "str") or not self.parts else f"<{self.parts!r}>"


def tokens(v: Variant) -> list[Tok]:
    chars = []
    for i, p in enumerate(v.parts):
        chars.append(p if isinstance(p, str) else chr(BASE + i))
    text = "".join(chars)
    out = []
    for m in LEX.finditer(text):
        if m.lastgroup == "ws":
            continue
        s = m.group()
        parts = tuple(v.parts[ord(c) - BASE] if BASE <= ord(c) < BASE + len(v.parts) else c for c in (s[1:-1] if m.lastgroup in ("str", "qid") else s))
        # join runs of plain characters
        joined: list = []
        for p in parts:
            if isinstance(p, str) and joined and isinstance(joined[-1], str):
                joined[-1] += p
            else:
                joined.append(p)
        out.append(Tok(m.lastgroup or "op", s, tuple(joined)))
    return out


def split(toks: list[Tok], sep) -> list[list[Tok]]:
    "Splits at separators that are not in parentheses."
    out: list[list[Tok]] = [[]]
    depth = 0
    for t in toks:
        if t.is_op("("):
            depth += 1
        elif t.is_op(")"):
            depth -= 1
        if depth == 0 and sep(t):
            out.append([])
        else:
            out[-1].append(t)
    return out


def unparen(toks: list[Tok]) -> list[Tok]:
    while len(toks) >= 2 and toks[0].is_op("(") and toks[-1].is_op(")"):
        depth = 0
        for i, t in enumerate(toks):
            depth += t.is_op("(") - t.is_op(")")
            if depth == 0:
                break
        if i != len(toks) - 1:
            break
        toks = toks[1:-1]
    return toks


def conjuncts(toks: list[Tok]) -> list[list[Tok]]:
    "Conditions that must all hold."
    toks = unparen(toks)
    if not toks:
        return []
    if len(split(toks, lambda t: t.is_word("or"))) > 1:
        return [toks]
    parts: list[list[Tok]] = []
    pending = False
    for p in split(toks, lambda t: t.is_word("and")):
        if pending:
            parts[-1] = parts[-1] + [Tok("word", "AND", ())] + p
            pending = False
        else:
            parts.append(p)
        pending = any(t.is_word("between") for t in split_tail(p))
    if len(parts) == 1:
        return [parts[0]] if parts[0] else []
    return [c for p in parts for c in conjuncts(p)]


def split_tail(toks: list[Tok]) -> list[Tok]:
    out, depth = [], 0
    for t in toks:
        depth += t.is_op("(") - t.is_op(")")
        if depth == 0:
            out.append(t)
    return out if sum(t.is_word("between") for t in out) == 1 else []


class Item:
    "Selected expression."

    def __init__(self, toks: list[Tok]) -> None:
        self.alias: Optional[str] = None
        if len(toks) >= 3 and toks[-2].is_word("as") and toks[-1].kind in ("word", "qid"):
            self.alias, toks = ident(toks[-1]), toks[:-2]
        elif len(toks) >= 2 and toks[-1].kind == "word" and toks[-1].low not in NOT_ALIAS and not toks[-2].is_op(".") and (toks[-2].kind in ("word", "num", "str", "qid", "hole") or toks[-2].is_op(")")) and not toks[-2].is_word("not", "case", "when", "then", "else", "distinct"):
            self.alias, toks = ident(toks[-1]), toks[:-1]
        self.expr = toks

    @property
    def name(self) -> Optional[str]:
        if self.alias is not None:
            return self.alias
        e = self.expr
        if e and e[-1].kind in ("word", "qid") and (len(e) == 1 or len(e) >= 2 and all(t.is_op(".") for t in e[1::2])):
            return ident(e[-1])
        return None

    def __repr__(self) -> str:
        return f"{' '.join(map(repr, self.expr))} AS {self.alias}"


def ident(t: Tok) -> str:
    if t.kind == "qid":
        return t.text[1:-1]
    return t.text


class Relation:
    def __init__(self, kind: str, name: str, alias: str, on: list[list[Tok]], sub: Optional["Select"] = None, args: Optional[list[list[Tok]]] = None, columns: tuple = ()) -> None:
        self.kind, self.name, self.alias, self.on, self.sub, self.args, self.columns = kind, name, alias, on, sub, args, columns

    def __repr__(self) -> str:
        return f"{self.kind} {self.name} {self.alias} on {self.on}"


class Select:
    def __init__(self, toks: list[Tok]) -> None:
        while toks and toks[-1].is_op(";"):
            toks = toks[:-1]
        toks = unparen(toks)
        if not toks or not toks[0].is_word("select"):
            raise Unparsed("not a SELECT statement")
        sections: dict[str, list[Tok]] = {"select": []}
        cur, depth = "select", 0
        for t in toks[1:]:
            if t.is_op("("):
                depth += 1
            elif t.is_op(")"):
                depth -= 1
            if depth == 0 and t.kind == "word" and t.low in CLAUSES:
                cur = t.low
                if cur in sections or cur == "union":
                    raise Unparsed(f"unexpected {cur}")
                sections[cur] = []
            else:
                sections[cur].append(t)
        head = sections["select"]
        self.distinct = bool(head) and head[0].is_word("distinct")
        if self.distinct:
            head = head[1:]
        if head[:1] and head[0].is_word("top"):
            head = head[2:]
        self.items = [Item(x) for x in split(head, lambda t: t.is_op(","))]
        self.star = any(len(i.expr) >= 1 and i.expr[-1].is_op("*") and len(i.expr) in (1, 3) for i in self.items)
        self.relations = list(self._relations(sections.get("from", [])))
        self.where = conjuncts(sections.get("where", []))
        order = sections.get("order", [])
        self.order = split(order[1:], lambda t: t.is_op(",")) if order else []
        self.grouped = "group" in sections

    def _relations(self, toks: list[Tok]) -> Iterator[Relation]:
        if not toks:
            return
        pos = 0
        kind = "base"
        while pos < len(toks):
            start = pos
            # relation
            while pos < len(toks) and toks[pos].is_word("lateral"):
                pos += 1
            sub, args, name = None, None, ""
            if pos < len(toks) and toks[pos].is_op("("):
                inner, pos = self._group(toks, pos)
                sub = Select(inner)
            else:
                while pos < len(toks) and (toks[pos].kind in ("word", "qid", "hole") or toks[pos].is_op(".")):
                    name += ident(toks[pos]) if toks[pos].kind != "hole" else "{" + repr(toks[pos].parts[0].term if isinstance(toks[pos].parts[0], Hole) else "") + "}"
                    pos += 1
                    if not (pos < len(toks) and toks[pos].is_op(".")) and not name.endswith("."):
                        break
                if pos < len(toks) and toks[pos].is_op("("):
                    inner, pos = self._group(toks, pos)
                    args = split(inner, lambda t: t.is_op(","))
            alias = name.rsplit(".", 1)[-1]
            if pos < len(toks) and toks[pos].is_word("as"):
                pos += 1
                alias = ident(toks[pos])
                pos += 1
            elif pos < len(toks) and toks[pos].kind in ("word", "qid") and toks[pos].low not in NOT_ALIAS:
                alias = ident(toks[pos])
                pos += 1
            columns: tuple = ()
            if pos < len(toks) and toks[pos].is_op("("):
                inner, pos = self._group(toks, pos)
                columns = tuple(ident(t[0]).lower() for t in split(inner, lambda t: t.is_op(",")) if t)
            on: list[list[Tok]] = []
            if pos < len(toks) and toks[pos].is_word("on"):
                end = pos + 1
                depth = 0
                while end < len(toks) and not (depth == 0 and (toks[end].is_op(",") or toks[end].kind == "word" and toks[end].low in JOINS and not (toks[end].low in ("left", "right") and end + 1 < len(toks) and toks[end + 1].is_op("(")))):
                    depth += toks[end].is_op("(") - toks[end].is_op(")")
                    end += 1
                on = conjuncts(toks[pos + 1 : end])
                pos = end
            elif pos < len(toks) and toks[pos].is_word("using"):
                raise Unparsed("USING")
            yield Relation(kind, name.lower(), alias.lower(), on, sub, args, columns)
            if pos >= len(toks):
                return
            if toks[pos].is_op(","):
                kind, pos = "cross", pos + 1
                continue
            kind = "inner"
            while pos < len(toks) and toks[pos].kind == "word" and toks[pos].low in JOINS:
                if toks[pos].low in ("left", "right", "full", "cross"):
                    kind = toks[pos].low
                pos += 1
            if pos == start:
                raise Unparsed("FROM clause")
            if pos >= len(toks) or toks[pos - 1].kind != "word" or toks[pos - 1].low not in JOINS:
                raise Unparsed("FROM clause")

    @staticmethod
    def _group(toks: list[Tok], pos: int) -> tuple[list[Tok], int]:
        depth = 0
        for i in range(pos, len(toks)):
            depth += toks[i].is_op("(") - toks[i].is_op(")")
            if depth == 0:
                return toks[pos + 1 : i], i + 1
        raise Unparsed("parentheses")


def columns_in(toks: list[Tok]) -> list[tuple[Optional[str], str]]:
    "Column references (relation alias or None, column) in an expression."
    out: list[tuple[Optional[str], str]] = []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.kind in ("word", "qid"):
            chain = [ident(t).lower()]
            j = i + 1
            while j + 1 < len(toks) and toks[j].is_op(".") and toks[j + 1].kind in ("word", "qid"):
                chain.append(ident(toks[j + 1]).lower())
                j += 2
            call = j < len(toks) and toks[j].is_op("(")
            cast = i > 0 and toks[i - 1].is_op("::")
            if not call and not cast and not (t.kind == "word" and len(chain) == 1 and chain[0] in KEYWORDS):
                out.append((chain[-2] if len(chain) > 1 else None, chain[-1]))
            i = j
        else:
            i += 1
    return out


KEYWORDS = {"case", "when", "then", "else", "end", "and", "or", "not", "in", "is", "null", "true", "false", "like", "escape", "between", "any", "all", "as", "distinct", "exists", "select", "from", "where", "asc", "desc"}
