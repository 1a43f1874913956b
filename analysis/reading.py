"""
Typestate of a line reader.

A function that reads lines from a stream is executed abstractly on all its paths. The state is that of the line read last: *pending*
(read, but possibly the end of the stream), *line* (known to be a line), *eof* (known to be the end) or *delivered*. What variables hold
is tracked as raw line, line without its terminator, or record made of the line. Private helpers, generators among them, are followed.
"""

from __future__ import annotations

import ast
from typing import Callable, Iterable, Optional

from .program import ClassInfo, FuncInfo

LINE_VALUES = {"RAW", "STRIP", "LOSSY", "REC"}
State = tuple  # (status, frozenset of ((frame, name), value))


class Flow:
    def __init__(self) -> None:
        self.next: set = set()
        self.brk: set = set()
        self.cont: set = set()
        self.ret: set = set()

    def merge(self, other: "Flow") -> None:
        self.brk |= other.brk
        self.cont |= other.cont
        self.ret |= other.ret


class Reading:
    def __init__(self, cls: ClassInfo, functions: Callable[[str], Optional[FuncInfo]]) -> None:
        self.cls, self.functions = cls, functions
        self.problems: dict[tuple[int, str], None] = {}
        self.reads = self.parses = self.deliveries = 0
        self.frames = 0
        self.sinks: dict[int, Callable] = {}

    # state

    def problem(self, node: ast.AST, text: str) -> None:
        self.problems[getattr(node, "lineno", 0), text] = None

    @staticmethod
    def get(st: State, fr: int, name: str):
        return dict(st[1]).get((fr, name), "OTHER")

    @staticmethod
    def put(st: State, fr: int, name: str, value) -> State:
        env = dict(st[1])
        env[fr, name] = value
        return st[0], frozenset(env.items())

    @staticmethod
    def status(st: State, status: str) -> State:
        return status, st[1]

    def read(self, node: ast.AST, st: State, status: str = "pending") -> State:
        self.reads += 1
        if st[0] in ("line", "pending"):
            self.problem(node, "a line is read while the previous one has not been delivered")
        if st[0] == "eof" and status == "pending":
            pass
        return status, frozenset((k, "OLD" if v in LINE_VALUES else v) for k, v in st[1])

    def deliver(self, node: ast.AST, value, st: State) -> State:
        self.deliveries += 1
        if value == "REC":
            if st[0] == "delivered":
                self.problem(node, "a record is delivered twice")
            return self.status(st, "delivered")
        self.problem(node, "what is delivered is not the record that has been read")
        return self.status(st, "delivered")

    # expressions

    def eval(self, e: Optional[ast.expr], st: State, fr: int) -> list[tuple]:
        if e is None:
            return [("NONE", st)]
        m = getattr(self, "eval_" + type(e).__name__, None)
        if m is not None:
            return m(e, st, fr)
        out = [("OTHER", st)]
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out = [("OTHER", s2) for _, s in out for _, s2 in self.eval(c, s, fr)]
        return unique(out)

    def eval_Constant(self, e, st, fr):
        if e.value is None:
            return [("NONE", st)]
        if e.value == b"" and isinstance(e.value, bytes):
            return [("EMPTY", st)]
        return [(("CONST", e.value), st)]

    def eval_Name(self, e, st, fr):
        if e.id == "self":
            return [("SELF", st)]
        return [(self.get(st, fr, e.id), st)]

    def eval_Attribute(self, e, st, fr):
        out = []
        for v, s in self.eval(e.value, st, fr):
            if v == "SELF":
                f = self.cls.find_method(e.attr)
                out.append(("STREAM" if e.attr == "stream" else "PARSER" if e.attr == "parser" else ("FN", f) if f is not None else "OTHER", s))
            elif v == "STREAM" and e.attr == "readline":
                out.append(("READ", s))
            elif v == "PARSER" and e.attr == "parse_line":
                out.append(("PARSE", s))
            else:
                out.append((("M", v, e.attr), s))
        return out

    def eval_Await(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def eval_NamedExpr(self, e, st, fr):
        return [(v, self.put(s, fr, e.target.id, v)) for v, s in self.eval(e.value, st, fr)]

    def eval_IfExp(self, e, st, fr):
        out = []
        for b, s in self.cond(e.test, st, fr):
            out += self.eval(e.body if b else e.orelse, s, fr)
        return unique(out)

    def eval_BoolOp(self, e, st, fr):
        return [(("CONST", b), s) for b, s in self.cond(e, st, fr)]

    def eval_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            return [(("CONST", b), s) for b, s in self.cond(e, st, fr)]
        return [("OTHER", s) for _, s in self.eval(e.operand, st, fr)]

    def eval_Compare(self, e, st, fr):
        return [(("CONST", b), s) for b, s in self.cond(e, st, fr)]

    def eval_List(self, e, st, fr):
        if not e.elts:
            return [("LIST", st)]
        out = [((), st)]
        for x in e.elts:
            out = [(vs + (v,), s2) for vs, s in out for v, s2 in self.eval(x, s, fr)]
        return [(("ITEMS", vs), s) for vs, s in out]

    eval_Tuple = eval_List

    def eval_Subscript(self, e, st, fr):
        out = []
        for v, s in self.eval(e.value, st, fr):
            if isinstance(v, tuple) and v[0] == "ITEMS" and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and e.slice.value < len(v[1]):
                out.append((v[1][e.slice.value], s))
            else:
                out.append(("LOSSY" if v in ("RAW", "STRIP") else "OTHER", s))
        return out

    def eval_Yield(self, e, st, fr):
        out = []
        for v, s in self.eval(e.value, st, fr):
            sink = self.sinks.get(fr)
            if sink is None:
                out.append(("NONE", self.deliver(e, v, s)))
            else:
                out += [("NONE", x) for x in sink(v, s)]
        return unique(out)

    def eval_YieldFrom(self, e, st, fr):
        out = []
        for v, s in self.eval(e.value, st, fr):

            def body(x, s2):
                f = Flow()
                sink = self.sinks.get(fr)
                if sink is None:
                    f.next.add(self.deliver(e, x, s2))
                else:
                    f.next |= set(sink(x, s2))
                return f

            out += [("NONE", x) for x in self.iterate(e, v, s, fr, body).next]
        return unique(out)

    def eval_ListComp(self, e, st, fr):
        out = []
        for v, s in self.comprehension(e, st, fr):
            out.append((v, s))
        return out

    def comprehension(self, e, st, fr):
        if len(e.generators) != 1:
            return [("OTHER", st)]
        g = e.generators[0]
        out = []
        for src, s in self.eval(g.iter, st, fr):
            if not self.iterable(src):
                out.append(("OTHER", s))
                continue

            def body(x, s2):
                f = Flow()
                for s3 in self.assign(g.target, x, s2, fr):
                    todo = [(True, s3)]
                    for c in g.ifs:
                        todo = [(b and b2, s5) for b, s4 in todo for b2, s5 in (self.cond(c, s4, fr) if b else [(False, s4)])]
                    for b, s4 in todo:
                        if not b:
                            f.next.add(s4)
                            continue
                        for v, s5 in self.eval(e.elt, s4, fr):
                            f.next.add(self.deliver(e, v, s5))
                return f

            out += [("LIST", x) for x in self.iterate(e, src, s, fr, body).next]
        return unique(out)

    def eval_GeneratorExp(self, e, st, fr):
        # consumed where it stands (a reader has no other use for it)
        return [(("GENEXP", e, fr), st)]

    def eval_Call(self, e, st, fr):
        out = []
        name = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ""
        fs = self.eval(e.func, st, fr)
        for f, s in fs:
            args = [((), s)]
            for a in e.args + [k.value for k in e.keywords]:
                args = [(vs + (v,), s2) for vs, s1 in args for v, s2 in self.eval(a.value if isinstance(a, ast.Starred) else a, s1, fr)]
            for vs, s1 in args:
                out += self.call(e, f, name, vs, s1, fr)
        return unique(out)

    def call(self, e: ast.Call, f, name: str, vs: tuple, st: State, fr: int) -> list[tuple]:
        if f == "READ":
            if vs:
                self.problem(e, "only part of a line may be read")
            return [("RAW", self.read(e, st))]
        if f == "PARSE":
            self.parses += 1
            v = vs[0] if vs else "OTHER"
            if v == "STRIP":
                if st[0] == "pending":
                    self.problem(e, "the end of the stream may be taken for a record")
                elif st[0] == "eof":
                    self.problem(e, "the end of the stream is taken for a record")
                return [("REC", self.status(st, "line") if st[0] == "pending" else st)]
            self.problem(e, {"RAW": "the line terminator is part of the record", "LOSSY": "part of the line is removed before it is parsed"}.get(v, "what is parsed is not the line read last"))
            return [("REC", st)]
        if isinstance(f, tuple) and f[0] == "M":
            _, recv, m = f
            if recv in ("RAW", "STRIP", "LOSSY"):
                given = vs[0] if vs else None
                chars = given[1] if isinstance(given, tuple) and given[0] == "CONST" else None
                if m == "rstrip" and isinstance(chars, bytes) and chars and set(chars) <= set(b"\r\n") or m == "removesuffix" and chars == b"\n":
                    return [("STRIP" if recv != "LOSSY" and (b"\n" in chars or recv == "STRIP") else recv, st)]
                if m in ("rstrip", "strip", "lstrip", "replace", "split", "splitlines", "removesuffix", "removeprefix", "decode", "encode", "partition", "rpartition", "lower", "upper", "expandtabs", "translate"):
                    return [("LOSSY", st)]
                return [("OTHER", st)]
            if recv == "LIST":
                if m == "append" and vs:
                    return [("NONE", self.deliver(e, vs[0], st))]
                if m == "extend" and vs:
                    return self.extend(e, vs[0], st, fr)
                if m == "copy":
                    return [("LIST", st)]
                if m in ("insert", "reverse", "sort", "pop", "clear", "remove"):
                    self.problem(e, "the records are not kept in the order in which they are read")
                return [("NONE", st)]
            if recv == "STREAM" and m in ("readlines", "__iter__", "__aiter__"):
                return [("LINES", st)]
            if recv in ("STREAM",) and m in ("seek", "read", "truncate"):
                self.problem(e, f"the position in the stream is moved by {m}")
                return [("OTHER", st)]
        if name == "iter" and vs and isinstance(e.func, ast.Name):
            if vs[0] == "READ" and len(vs) > 1:
                if vs[1] != "EMPTY":
                    self.problem(e, "reading ends at something other than the end of the stream")
                return [("LINES", st)]
            return [("LINES" if vs[0] == "STREAM" else vs[0], st)]
        if name in ("list", "tuple") and isinstance(e.func, ast.Name):
            if not vs:
                return [("LIST", st)]
            if vs[0] == "LIST":
                return [("LIST", st)]
            return self.extend(e, vs[0], st, fr, "LIST")
        if name in ("sorted", "reversed", "set", "filter") and isinstance(e.func, ast.Name) and vs and any(self.iterable(v) or v == "LIST" for v in vs):
            self.problem(e, "the records are not kept as they are read")
            return [("LIST", st)]
        if name == "len" and vs:
            return [(("LEN", vs[0]), st)]
        if name == "bool" and vs:
            return [(vs[0], st)]
        if name == "cast" and len(vs) == 2:
            return [(vs[1], st)]
        target = f[1] if isinstance(f, tuple) and f[0] == "FN" else self.functions(name) if isinstance(e.func, ast.Name) and f == "OTHER" else None
        if isinstance(target, FuncInfo) and self.frames < 12:
            if target.node is not None and is_generator(target.node):
                return [(("GEN", target, vs), st)]
            return self.inline(target, vs, st)
        return [("OTHER", st)]

    def extend(self, e, src, st, fr, result="NONE"):
        if isinstance(src, tuple) and src[0] == "ITEMS":
            for v in src[1]:
                st = self.deliver(e, v, st)
            return [(result, st)]
        if isinstance(src, tuple) and src[0] == "GENEXP":
            return [(result, s) for _, s in self.comprehension(src[1], st, src[2])]
        if not self.iterable(src):
            return [("OTHER", st)]

        def body(x, s):
            f = Flow()
            f.next.add(self.deliver(e, x, s))
            return f

        return unique([(result, s) for s in self.iterate(e, src, st, fr, body).next])

    # conditions

    def cond(self, e: ast.expr, st: State, fr: int) -> list[tuple[bool, State]]:
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not b, s) for b, s in self.cond(e.operand, st, fr)]
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            out: list = []
            todo = [st]
            for i, v in enumerate(e.values):
                rest = []
                for s in todo:
                    for b, s2 in self.cond(v, s, fr):
                        if b == stop or i == len(e.values) - 1:
                            out.append((b, s2))
                        else:
                            rest.append(s2)
                todo = rest
            return unique(out)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            out = []
            for a, s in self.eval(e.left, st, fr):
                for b, s2 in self.eval(e.comparators[0], s, fr):
                    out += self.compare(a, e.ops[0], b, s2)
            return unique(out)
        out = []
        for v, s in self.eval(e, st, fr):
            out += self.truth(v, s)
        return unique(out)

    def compare(self, a, op: ast.cmpop, b, st: State) -> list[tuple[bool, State]]:
        if b in ("RAW", "STRIP", "REC") or isinstance(b, tuple) and b[0] == "LEN":
            a, b = b, a
            op = {ast.Lt: ast.Gt(), ast.Gt: ast.Lt(), ast.LtE: ast.GtE(), ast.GtE: ast.LtE()}.get(type(op), op)
        zero = b in (("CONST", 0),)
        if b == "EMPTY" and isinstance(op, (ast.Eq, ast.NotEq)):
            return [(v != isinstance(op, ast.Eq), s) for v, s in self.truth(a, st)]
        if isinstance(a, tuple) and a[0] == "LEN" and (zero or b == ("CONST", 1)):
            if zero and isinstance(op, (ast.Eq, ast.LtE)) or not zero and isinstance(op, ast.Lt):
                return [(not v, s) for v, s in self.truth(a[1], st)]
            if zero and isinstance(op, (ast.NotEq, ast.Gt)) or not zero and isinstance(op, ast.GtE):
                return self.truth(a[1], st)
        if b == "NONE" and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            is_ = isinstance(op, (ast.Is, ast.Eq))
            if a == "NONE":
                return [(is_, st)]
            if a in LINE_VALUES | {"LIST", "EMPTY"} or isinstance(a, tuple):
                return [(not is_, st)]
        return [(True, st), (False, st)]

    def truth(self, v, st: State) -> list[tuple[bool, State]]:
        if v in ("NONE", "EMPTY"):
            return [(False, st)]
        if v == "REC":
            return [(True, st)]
        if isinstance(v, tuple) and v[0] == "CONST":
            return [(bool(v[1]), st)]
        if isinstance(v, tuple) and v[0] == "LEN":
            return self.truth(v[1], st)
        if v == "RAW":
            if st[0] == "pending":
                return [(True, self.status(st, "line")), (False, self.status(st, "eof"))]
            return [(st[0] != "eof", st)]
        if v in ("STRIP", "LOSSY"):
            if st[0] == "pending":
                return [(True, self.status(st, "line")), (False, st)]
            if st[0] == "eof":
                return [(False, st)]
        return [(True, st), (False, st)]

    # iteration

    def iterable(self, v) -> bool:
        return v in ("LINES", "STREAM") or isinstance(v, tuple) and v[0] in ("GEN", "GENEXP")

    def iterate(self, node: ast.AST, src, st: State, fr: int, body: Callable) -> Flow:
        "Executes a body for each element; `next` of the result is the state after the last."
        out = Flow()
        if src in ("LINES", "STREAM"):
            seen: set = set()
            work = {st}
            while work:
                s = work.pop()
                if s in seen:
                    continue
                seen.add(s)
                out.next.add(self.read(node, s, "eof"))
                f = body("RAW", self.read(node, s, "line"))
                work |= f.next | f.cont
                out.next |= f.brk
                out.ret |= f.ret
            return out
        if isinstance(src, tuple) and src[0] == "GENEXP":
            e = src[1]
            if len(e.generators) == 1:
                g = e.generators[0]
                for v, s in self.eval(g.iter, st, src[2]):

                    def inner(x, s2):
                        f = Flow()
                        for s3 in self.assign(g.target, x, s2, src[2]):
                            todo = [(True, s3)]
                            for c in g.ifs:
                                todo = [(b and b2, s5) for b, s4 in todo for b2, s5 in (self.cond(c, s4, src[2]) if b else [(False, s4)])]
                            for b, s4 in todo:
                                for y, s5 in self.eval(e.elt, s4, src[2]) if b else []:
                                    r = body(y, s5)
                                    f.next |= r.next | r.cont
                                    f.brk |= r.brk
                                    f.ret |= r.ret
                                if not b:
                                    f.next.add(s4)
                        return f

                    r = self.iterate(node, v, s, src[2], inner)
                    out.next |= r.next
                    out.ret |= r.ret
            return out
        if isinstance(src, tuple) and src[0] == "GEN":
            self.frames += 1
            sub = self.frames

            def sink(v, s):
                f = body(v, s)
                out.next |= f.brk
                out.ret |= f.ret
                return f.next | f.cont

            self.sinks[sub] = sink
            s = self.bind(src[1], src[2], st, sub)
            f = self.block(src[1].node.body, {s}, sub)
            out.next |= self.leave(f.next | {s2 for s2, _ in f.ret}, sub)
            del self.sinks[sub]
            self.frames -= 1
            return out
        # something else: the body may run any number of times
        seen = set()
        work = {st}
        while work:
            s = work.pop()
            if s in seen:
                continue
            seen.add(s)
            out.next.add(s)
            f = body("OTHER", s)
            work |= f.next | f.cont
            out.next |= f.brk
            out.ret |= f.ret
        return out

    def bind(self, f: FuncInfo, vs: tuple, st: State, fr: int) -> State:
        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        if f.cls is not None and names and names[0] == "self":
            names = names[1:]
        for n, v in zip(names, vs):
            st = self.put(st, fr, n, v)
        return st

    def leave(self, states: Iterable[State], fr: int) -> set:
        return {(s[0], frozenset((k, v) for k, v in s[1] if k[0] != fr)) for s in states}

    def inline(self, f: FuncInfo, vs: tuple, st: State) -> list[tuple]:
        self.frames += 1
        fr = self.frames
        r = self.block(f.node.body, {self.bind(f, vs, st, fr)}, fr)
        out = [(v, s) for s1, v in r.ret for s in self.leave([s1], fr)] + [("NONE", s) for s in self.leave(r.next, fr)]
        self.frames -= 1
        return unique(out)

    # statements

    def assign(self, target: ast.expr, v, st: State, fr: int) -> list[State]:
        if isinstance(target, ast.Name):
            return [self.put(st, fr, target.id, v)]
        if isinstance(target, (ast.Tuple, ast.List)):
            vs = v[1] if isinstance(v, tuple) and v[0] == "ITEMS" and len(v[1]) == len(target.elts) else ("OTHER",) * len(target.elts)
            for t, x in zip(target.elts, vs):
                st = self.assign(t, x, st, fr)[0]
        return [st]

    def block(self, body: list[ast.stmt], states: set, fr: int) -> Flow:
        out = Flow()
        out.next = set(states)
        for s in body:
            cur, out.next = out.next, set()
            for st in cur:
                f = self.stmt(s, st, fr)
                out.next |= f.next
                out.merge(f)
        return out

    def stmt(self, s: ast.stmt, st: State, fr: int) -> Flow:
        out = Flow()
        if isinstance(s, ast.Expr):
            out.next = {x for _, x in self.eval(s.value, st, fr)}
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                out.next = {st}
            for v, x in self.eval(s.value, st, fr) if s.value is not None else []:
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    x = self.assign(t, v, x, fr)[0]
                out.next.add(x)
        elif isinstance(s, ast.AugAssign):
            for v, x in self.eval(s.value, st, fr):
                if isinstance(s.target, ast.Name) and self.get(x, fr, s.target.id) == "LIST":
                    out.next |= {y for _, y in self.extend(s, v, x, fr)}
                else:
                    out.next |= set(self.assign(s.target, "OTHER", x, fr))
        elif isinstance(s, ast.If):
            for b, x in self.cond(s.test, st, fr):
                f = self.block(s.body if b else s.orelse, {x}, fr)
                out.next |= f.next
                out.merge(f)
        elif isinstance(s, ast.While):
            seen: set = set()
            work = {st}
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                for b, y in self.cond(s.test, x, fr):
                    if not b:
                        f = self.block(s.orelse, {y}, fr)
                        out.next |= f.next
                        out.merge(f)
                        continue
                    f = self.block(s.body, {y}, fr)
                    work |= f.next | f.cont
                    out.next |= f.brk
                    out.ret |= f.ret
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            for src, x in self.eval(s.iter, st, fr):

                def body(v, y):
                    f = Flow()
                    for z in self.assign(s.target, v, y, fr):
                        g = self.block(s.body, {z}, fr)
                        f.next |= g.next
                        f.merge(g)
                    return f

                f = self.iterate(s, src, x, fr, body)
                out.next |= f.next
                out.ret |= f.ret
        elif isinstance(s, ast.Return):
            for v, x in self.eval(s.value, st, fr):
                out.ret.add((x, v))
        elif isinstance(s, ast.Break):
            out.brk = {st}
        elif isinstance(s, ast.Continue):
            out.cont = {st}
        elif isinstance(s, ast.Raise):
            self.eval(s.exc, st, fr)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            states = {st}
            for i in s.items:
                states = {x for y in states for _, x in self.eval(i.context_expr, y, fr)}
            f = self.block(s.body, states, fr)
            out.next |= f.next
            out.merge(f)
        elif isinstance(s, ast.Try):
            caught = {st}
            cur = {st}
            for b in s.body:
                f = self.block([b], cur, fr)
                out.merge(f)
                cur = f.next
                # an error may come at any point of the statement
                caught |= {x for y in list(caught) for x in self.partial(b, y, fr)} | cur
            f = self.block(s.orelse, cur, fr)
            out.next |= f.next
            out.merge(f)
            for h in s.handlers:
                f = self.block(h.body, caught, fr)
                out.next |= f.next
                out.merge(f)
            if s.finalbody:
                f = self.block(s.finalbody, out.next, fr)
                out.next = f.next
                out.merge(f)
        else:
            out.next = {st}
        return out

    def partial(self, s: ast.stmt, st: State, fr: int) -> set:
        "States in the middle of a statement: what is read before an error is raised."
        out: set = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                out |= {x for _, x in self.eval(n.func, st, fr)}
        return out

    # entry

    def analyse(self, f: FuncInfo) -> None:
        r = self.block(f.node.body, {("start", frozenset())}, 0)
        gen = is_generator(f.node)
        for st, v in {(s, "NONE") for s in r.next} | r.ret:
            if st[0] in ("line", "pending", "delivered"):
                self.problem(f.node, "reading may end before the end of the stream" if st[0] != "line" else "a line may be read and not delivered")
            elif st[0] == "start":
                if isinstance(v, tuple) and v[0] in ("GEN", "GENEXP"):
                    self.frames += 1

                    def body(x, s):
                        g = Flow()
                        g.next.add(self.deliver(f.node, x, s))
                        return g

                    for s in self.iterate(f.node, v, st, 0, body).next:
                        if s[0] != "eof":
                            self.problem(f.node, "reading may end before the end of the stream")
                    continue
                self.problem(f.node, "nothing may be read")
            if not gen and not (isinstance(v, tuple) and v[0] in ("GEN", "GENEXP")) and v != "LIST":
                self.problem(f.node, "what is returned are not the records that have been read")


def unique(xs: list) -> list:
    return list(dict.fromkeys(xs))


def is_generator(f: ast.AST) -> bool:
    todo = list(getattr(f, "body", []))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))
    return False
