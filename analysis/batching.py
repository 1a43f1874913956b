"""
Typestate analysis of functions that split a stream of records into batches.

The abstract state maps variables to abstract objects: a record list is Empty, Pending (holds undelivered records), Handed (the list
itself was yielded), Copied (its records were yielded in another list); the record of the current iteration counts how often it was
stored; a counter is zero or positive; an iterator over the source may be exhausted. States are joined as sets (disjunctively), so
that correlations between a buffer, a counter and exhaustion are kept. Loops are iterated to a fixpoint.
"""

from __future__ import annotations

import ast
from dataclasses import dataclass
from typing import Callable, Iterable, Optional

from .program import FuncInfo, dotted

EMPTY, PENDING, HANDED, COPIED, UNKNOWN = "empty", "pending", "handed out", "copied out", "unknown"


@dataclass(frozen=True)
class State:
    env: tuple[tuple[str, object], ...]  # variable -> value: ("obj", id) | ("item",) | ("num", zero|pos) | ("iter",) | ("src",) | ("batch", id)
    objs: tuple[tuple[object, str], ...]  # object -> state
    stored: int  # times the current record was stored; -1 outside of an iteration
    exhausted: bool

    def get(self, v: str):
        return dict(self.env).get(v)

    def obj(self, o) -> str:
        return dict(self.objs).get(o, UNKNOWN)

    def set(self, v: str, val) -> "State":
        d = dict(self.env)
        if val is None:
            d.pop(v, None)
        else:
            d[v] = val
        return State(tuple(sorted(d.items(), key=repr)), self.objs, self.stored, self.exhausted)

    def put(self, o, s: Optional[str]) -> "State":
        d = dict(self.objs)
        if s is None:
            d.pop(o, None)
        else:
            d[o] = s
        return State(self.env, tuple(sorted(d.items(), key=repr)), self.stored, self.exhausted)

    def upd(self, stored: Optional[int] = None, exhausted: Optional[bool] = None) -> "State":
        return State(self.env, self.objs, self.stored if stored is None else stored, self.exhausted if exhausted is None else exhausted)


class Batching:
    def __init__(self, f: FuncInfo, is_source: Callable[[ast.AST], bool], helper: Callable[[ast.Call], Optional[FuncInfo]], report: Callable[[str, ast.AST, str], None],
                 params: Iterable[str] = ()) -> None:
        self.f = f
        self.is_source_expr = is_source
        self.helper = helper
        self.report = report
        self.params = set(params)
        self.unknown: list[ast.AST] = []
        self.yields = 0
        self.delegates: list[tuple[FuncInfo, str]] = []

    # -- values

    def source(self, e: ast.AST, s: State) -> bool:
        if isinstance(e, ast.Name) and s.get(e.id) == ("src",):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("iter", "aiter") and len(e.args) == 1:
            return self.source(e.args[0], s)
        return self.is_source_expr(e)

    def names(self, e: ast.AST) -> set[str]:
        return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}

    def fresh(self, node: ast.AST, s: State) -> object:
        used = {o for o, _ in s.objs}
        base = (getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        for k in range(8):
            if (base, k) not in used:
                return (base, k)
        return (base, 8)

    def bind(self, s: State, var: str, val, node: ast.AST) -> State:
        return self.collect(s.set(var, val), node)

    def collect(self, s: State, node: ast.AST) -> State:
        live = {v[1] for _, v in s.env if v[0] == "obj"}
        for o, st in s.objs:
            if o not in live:
                if st == PENDING:
                    self.report("lost", node, "records not delivered yet are discarded")
                s = s.put(o, None)
        return s

    # -- statements; each returns the states that fall through, and collects the others

    def run(self) -> None:
        env = tuple(sorted(((p, ("src",)) for p in self.params), key=repr))
        s0 = State(env, (), -1, False)
        self.returns: list[tuple[State, ast.AST]] = []
        out = self.block(self.f.node.body, {s0}, {}, None)
        last = self.f.node.body[-1]
        for s in out:
            self.returns.append((s, last))
        for s, n in self.returns:
            if not s.exhausted:
                self.report("end", n, "ends before the source is exhausted")
            for o, st in s.objs:
                if st == PENDING:
                    self.report("lost", n, "ends while records have not been delivered yet")
            if s.stored == 0:
                self.report("lost", n, "ends without delivering the current record")

    def block(self, body: list[ast.stmt], states: set[State], breaks: dict, loop) -> set[State]:
        for st in body:
            nxt: set[State] = set()
            for s in states:
                nxt |= self.stmt(st, s, breaks)
            states = nxt
            if not states:
                break
        return states

    def stmt(self, st: ast.stmt, s: State, br: dict) -> set[State]:
        if isinstance(st, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Assert)):
            return {s}
        if isinstance(st, ast.Raise):
            return set()
        if isinstance(st, ast.AnnAssign):
            if st.value is None:
                return {s}
            return self.assign(st.target, st.value, s, st)
        if isinstance(st, ast.Assign):
            out = {s}
            for t in st.targets:
                out = {y for x in out for y in self.assign(t, st.value, x, st)}
            return out
        if isinstance(st, ast.AugAssign):
            if isinstance(st.target, ast.Name):
                v = s.get(st.target.id)
                if v and v[0] == "num":
                    if isinstance(st.op, ast.Add):
                        return {s.set(st.target.id, ("num", "pos"))}
                    return {s.set(st.target.id, None)}
                if v and v[0] == "obj":
                    if isinstance(st.op, ast.Add) and isinstance(st.value, (ast.List, ast.Tuple)) and len(st.value.elts) == 1 and self.is_item(st.value.elts[0], s):
                        return self.append(v[1], s, st)
                    return self.opaque(s, v[1], st)
            return {s}
        if isinstance(st, ast.Expr):
            return self.expr(st.value, s, st, br)
        if isinstance(st, ast.Return):
            self.returns.append((s, st))
            return set()
        if isinstance(st, ast.Break):
            br.setdefault("break", set()).add(s)
            return set()
        if isinstance(st, ast.Continue):
            br.setdefault("continue", set()).add(s)
            return set()
        if isinstance(st, ast.Delete):
            out = {s}
            for t in st.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None:
                    out = {y for x in out for y in self.clear(t.value.id, x, st)}
                elif isinstance(t, ast.Name):
                    out = {self.bind(x, t.id, None, st) for x in out}
            return out
        if isinstance(st, ast.If):
            a = self.cond(st.test, s, True)
            b = self.cond(st.test, s, False)
            return self.block(st.body, a, br, None) | self.block(st.orelse, b, br, None)
        if isinstance(st, (ast.For, ast.AsyncFor)):
            return self.loop_for(st, s)
        if isinstance(st, ast.While):
            return self.loop_while(st, s)
        if isinstance(st, (ast.With, ast.AsyncWith)):
            return self.block(st.body, {s}, br, None)
        if isinstance(st, ast.Try):
            out = self.block(st.body, {s}, br, None)
            out = self.block(st.orelse, out, br, None) if st.orelse else out
            for h in st.handlers:
                names = [dotted(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else []
                hs = {s}
                if any(n in ("StopIteration", "StopAsyncIteration") for n in names):
                    hs = {x.upd(exhausted=True) for x in hs}
                out |= self.block(h.body, hs, br, None)
            return self.block(st.finalbody, out, br, None) if st.finalbody else out
        self.unknown.append(st)
        return {s}

    def is_item(self, e: ast.AST, s: State) -> bool:
        return isinstance(e, ast.Name) and s.get(e.id) == ("item",)

    def append(self, o, s: State, node: ast.AST) -> set[State]:
        st = s.obj(o)
        if st == HANDED:
            self.report("modified", node, "a record is added to a batch that was already handed out")
        if st == COPIED:
            self.report("twice", node, "a record is added to records that were already delivered, which are delivered again")
        if s.stored >= 1:
            self.report("twice", node, "the same record is stored twice")
        return {s.put(o, PENDING if st != UNKNOWN else UNKNOWN).upd(stored=min(s.stored + 1, 2) if s.stored >= 0 else -1)}

    def clear(self, var: str, s: State, node: ast.AST) -> set[State]:
        v = s.get(var)
        if not v or v[0] != "obj":
            return {s}
        st = s.obj(v[1])
        if st == HANDED:
            self.report("modified", node, "a batch that was already handed out is emptied")
        if st == PENDING:
            self.report("lost", node, "records not delivered yet are discarded")
        return {s.put(v[1], EMPTY)}

    def opaque(self, s: State, o, node: ast.AST) -> set[State]:
        self.unknown.append(node)
        return {s.put(o, UNKNOWN)}

    def empty_list(self, e: ast.AST) -> bool:
        return isinstance(e, ast.List) and not e.elts or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "deque") and not e.args

    def copy_of(self, e: ast.AST, s: State) -> Optional[object]:
        "The list of which an expression is a complete copy."
        n = None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "copy") and len(e.args) == 1:
            n = e.args[0]
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "copy":
            n = e.func.value if not (isinstance(e.func.value, ast.Name) and e.func.value.id == "copy") else (e.args[0] if e.args else None)
        elif isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and e.slice.lower is None and e.slice.upper is None and e.slice.step is None:
            n = e.value
        elif isinstance(e, ast.List) and len(e.elts) == 1 and isinstance(e.elts[0], ast.Starred):
            n = e.elts[0].value
        elif isinstance(e, ast.ListComp) and len(e.generators) == 1 and not e.generators[0].ifs and isinstance(e.elt, ast.Name) and isinstance(e.generators[0].target, ast.Name) and e.elt.id == e.generators[0].target.id:
            n = e.generators[0].iter
        if isinstance(n, ast.Name):
            v = s.get(n.id)
            if v and v[0] == "obj":
                return v[1]
        return None

    def chunk(self, e: ast.AST, s: State) -> bool:
        "The next records of an iterator over the source, up to a limit."
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple") and len(e.args) == 1:
            e = e.args[0]
            return isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] == "islice" and len(e.args) == 2 and isinstance(e.args[0], ast.Name) and s.get(e.args[0].id) in (("iter",), ("src",))
        return False

    def assign(self, t: ast.AST, e: ast.AST, s: State, node: ast.AST) -> set[State]:
        if isinstance(t, ast.Tuple) and isinstance(e, ast.Tuple) and len(t.elts) == len(e.elts):
            # simultaneous: evaluate all values first
            vals: list[tuple[str, object, State]] = []
            cur = s
            for te, ve in zip(t.elts, e.elts):
                if not isinstance(te, ast.Name):
                    continue
                val, cur = self.value(ve, cur)
                vals.append((te.id, val, cur))
            for n, val, _ in vals:
                cur = cur.set(n, val)
            return {self.collect(cur, node)}
        if isinstance(t, ast.Name):
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("next",) and e.args and isinstance(e.args[0], ast.Name) and s.get(e.args[0].id) in (("iter",), ("src",)):
                self.unknown.append(node)
                return {s.set(t.id, ("item",)).upd(stored=0)}
            if self.chunk(e, s):
                o = self.fresh(e, s)
                a = self.bind(s.put(o, PENDING), t.id, ("obj", o), node)
                b = self.bind(s.put(o, EMPTY).upd(exhausted=True), t.id, ("obj", o), node)
                return {a, b}
            if isinstance(e, ast.Await):
                e = e.value
            val, s2 = self.value(e, s)
            return {self.bind(s2, t.id, val, node)}
        return {s}

    def value(self, e: ast.AST, s: State) -> tuple[object, State]:
        if self.empty_list(e):
            o = self.fresh(e, s)
            return ("obj", o), s.put(o, EMPTY)
        if isinstance(e, (ast.List, ast.Tuple)) and len(e.elts) == 1 and self.is_item(e.elts[0], s):
            o = self.fresh(e, s)
            if s.stored >= 1:
                self.report("twice", e, "the same record is stored twice")
            return ("obj", o), s.put(o, PENDING).upd(stored=min(s.stored + 1, 2))
        if isinstance(e, ast.Name):
            return s.get(e.id), s
        if isinstance(e, ast.Constant) and e.value is None:
            return None, s
        if isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool):
            return ("num", "zero" if e.value == 0 else "pos"), s
        if self.source(e, s):
            return ("iter",) if isinstance(e, ast.Call) else ("src",), s
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and isinstance(e.left, ast.Name):
            v = s.get(e.left.id)
            if v and v[0] == "num":
                return ("num", "pos"), s
            if v and v[0] == "obj" and isinstance(e.right, (ast.List, ast.Tuple)) and len(e.right.elts) == 1 and self.is_item(e.right.elts[0], s):
                # a new list with one more record
                st = s.obj(v[1])
                if st in (HANDED, COPIED):
                    self.report("twice", e, "records that were already delivered are delivered again")
                o = self.fresh(e, s)
                s = s.put(v[1], EMPTY if st in (EMPTY, PENDING) else st).put(o, PENDING).upd(stored=min(s.stored + 1, 2))
                return ("obj", o), s
        c = self.copy_of(e, s)
        if c is not None:
            o = self.fresh(e, s)
            st = s.obj(c)
            if st == PENDING:
                # the records move to the copy as far as delivery is concerned
                return ("obj", o), s.put(o, PENDING).put(c, COPIED)
            return ("obj", o), s.put(o, st if st != HANDED else COPIED)
        for n in self.names(e):
            v = s.get(n)
            if v and v[0] == "obj" and not self.reads(e, n):
                self.unknown.append(e)
                s = s.put(v[1], UNKNOWN)
        return None, s

    def reads(self, e: ast.AST, n: str) -> bool:
        "Only the length of the list is used."
        uses = [x for x in ast.walk(e) if isinstance(x, ast.Name) and x.id == n]
        lens = [x.args[0] for x in ast.walk(e) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("len", "bool", "id") and len(x.args) == 1]
        return all(any(u is l for l in lens) for u in uses)

    def expr(self, e: ast.AST, s: State, node: ast.AST, br: dict) -> set[State]:
        if isinstance(e, ast.Await):
            e = e.value
        if isinstance(e, ast.Yield):
            return self.deliver(e.value, s, node)
        if isinstance(e, ast.YieldFrom):
            if isinstance(e.value, ast.Call):
                g = self.delegate(e.value, s)
                if g:
                    return {s.upd(exhausted=True)}
            self.unknown.append(node)
            return {s.upd(exhausted=True)}
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
                v = s.get(e.func.value.id)
                if v and v[0] == "obj":
                    if e.func.attr == "append" and len(e.args) == 1:
                        if self.is_item(e.args[0], s):
                            return self.append(v[1], s, node)
                        self.report("other", node, "something other than the current record is added to a batch")
                        return {s}
                    if e.func.attr == "clear":
                        return self.clear(e.func.value.id, s, node)
                    if e.func.attr == "extend" and len(e.args) == 1 and isinstance(e.args[0], (ast.List, ast.Tuple)) and len(e.args[0].elts) == 1 and self.is_item(e.args[0].elts[0], s):
                        return self.append(v[1], s, node)
                    return self.opaque(s, v[1], node)
            for n in self.names(e):
                v = s.get(n)
                if v and v[0] == "obj" and not self.reads(e, n) and not self.harmless(e):
                    s = next(iter(self.opaque(s, v[1], node)))
        return {s}

    def harmless(self, e: ast.Call) -> bool:
        d = dotted(e.func) or ""
        return d.split(".")[0] in ("LOGGER", "logging", "logger", "print")

    def deliver(self, e: Optional[ast.AST], s: State, node: ast.AST) -> set[State]:
        self.yields += 1
        o = None
        copy = False
        if isinstance(e, ast.Name):
            v = s.get(e.id)
            if v and v[0] == "obj":
                o = v[1]
            elif v == ("item",) or v and v[0] == "batch":
                # a batch of another generator is passed on
                if s.stored >= 1:
                    self.report("twice", node, "the same batch is delivered twice")
                return {s.upd(stored=min(s.stored + 1, 2) if s.stored >= 0 else -1)}
        elif isinstance(e, (ast.List, ast.Tuple)) and len(e.elts) == 1 and self.is_item(e.elts[0], s):
            if s.stored >= 1:
                self.report("twice", node, "the same record is delivered twice")
            return {s.upd(stored=min(s.stored + 1, 2))}
        elif e is not None:
            o = self.copy_of(e, s)
            copy = o is not None
        if o is None:
            self.unknown.append(node)
            # what is delivered is not followed: nothing can be said about the buffers it mentions
            for n in self.names(e) if e is not None else ():
                v = s.get(n)
                if v and v[0] == "obj":
                    s = s.put(v[1], UNKNOWN)
            return {s}
        st = s.obj(o)
        if st in (HANDED, COPIED):
            self.report("twice", node, "records that were already delivered are delivered again")
        if st == UNKNOWN:
            return {s}
        return {s.put(o, COPIED if copy and st == PENDING else EMPTY if copy else HANDED)}

    def cond(self, t: ast.AST, s: State, want: bool) -> set[State]:
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.cond(t.operand, s, not want)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And) == want
            if conj:
                out = {s}
                for v in t.values:
                    out = {y for x in out for y in self.cond(v, x, want)}
                return out
            out = set()
            cur = {s}
            for v in t.values:
                out |= {y for x in cur for y in self.cond(v, x, want)}
                cur = {y for x in cur for y in self.cond(v, x, not want)}
            return out
        if isinstance(t, ast.NamedExpr) and isinstance(t.target, ast.Name):
            return {y for x in self.assign(t.target, t.value, s, t) for y in self.cond(t.target, x, want)}
        if isinstance(t, ast.Constant):
            return {s} if bool(t.value) == want else set()
        if isinstance(t, ast.Name):
            return self.nonempty(t.id, s, want)
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("len", "bool") and t.args and isinstance(t.args[0], ast.Name):
            return self.nonempty(t.args[0].id, s, want)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            left, op, right = t.left, t.ops[0], t.comparators[0]
            name = None
            if isinstance(left, ast.Call) and isinstance(left.func, ast.Name) and left.func.id == "len" and left.args and isinstance(left.args[0], ast.Name):
                name = left.args[0].id
            elif isinstance(left, ast.Name) and s.get(left.id) and s.get(left.id)[0] in ("num", "obj"):
                name = left.id
            if name is not None:
                zero = isinstance(right, ast.Constant) and right.value == 0 or isinstance(right, (ast.List, ast.Tuple)) and not right.elts
                one = isinstance(right, ast.Constant) and right.value == 1
                if zero:
                    if isinstance(op, (ast.Gt, ast.NotEq)):
                        return self.nonempty(name, s, want)
                    if isinstance(op, (ast.Eq, ast.LtE)):
                        return self.nonempty(name, s, not want)
                    return {s}
                if one:
                    if isinstance(op, ast.GtE):
                        return self.nonempty(name, s, want)
                    if isinstance(op, ast.Lt):
                        return self.nonempty(name, s, not want)
                # comparison with a positive limit: at or above it means not empty
                if isinstance(op, (ast.GtE, ast.Gt, ast.Eq)):
                    return self.nonempty(name, s, True) if want else {s}
                if isinstance(op, (ast.Lt, ast.LtE, ast.NotEq)):
                    return {s} if want else self.nonempty(name, s, True)
        return {s}

    def nonempty(self, name: str, s: State, want: bool) -> set[State]:
        v = s.get(name)
        if v and v[0] == "obj":
            st = s.obj(v[1])
            if st == EMPTY:
                return set() if want else {s}
            if st == PENDING:
                return {s} if want else set()
            return {s}
        if v and v[0] == "num":
            return {s} if (v[1] == "pos") == want else set()
        return {s}

    def delegate(self, call: ast.Call, s: State) -> bool:
        "A helper generator is given the source, or is a method that uses it itself."
        g = self.helper(call)
        if g is None:
            return False
        args = [a.arg for a in g.args.posonlyargs + g.args.args]
        if g.cls is not None and not g.is_static and args:
            args = args[1:]
        hit = None
        for i, a in enumerate(call.args):
            if self.source(a, s) and i < len(args):
                hit = args[i]
        for k in call.keywords:
            if k.arg and self.source(k.value, s):
                hit = k.arg
        self.delegates.append((g, hit or ""))
        return True

    def loop_for(self, st, s: State) -> set[State]:
        it = st.iter
        target = st.target
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args and isinstance(target, ast.Tuple) and len(target.elts) == 2:
            it, target = it.args[0], target.elts[1]
        over = self.source(it, s) or isinstance(it, ast.Name) and s.get(it.id) == ("iter",)
        other = False
        if not over and isinstance(it, ast.Call) and self.delegate(it, s):
            other = True
        if not over and not other:
            if isinstance(it, ast.Name) and (s.get(it.id) or ("",))[0] == "obj":
                self.unknown.append(st)
                s = s.put(s.get(it.id)[1], UNKNOWN)
            # a loop over something else: any number of iterations
            seen = {s}
            work = [s]
            exits = {s}
            while work:
                cur = work.pop()
                br: dict = {}
                out = self.block(st.body, {cur}, br, None) | br.get("continue", set())
                exits |= br.get("break", set())
                for x in out:
                    if x not in seen:
                        seen.add(x)
                        work.append(x)
                exits |= out
            return exits
        var = target.id if isinstance(target, ast.Name) else None
        if s.stored >= 0:
            self.unknown.append(st)
        seen: set[State] = set()
        work = [s]
        heads: set[State] = set()
        exits: set[State] = set()
        while work:
            cur = work.pop()
            if cur in seen:
                continue
            seen.add(cur)
            heads.add(cur)
            if cur.exhausted:
                # a second pass over a stream that was already read delivers its records again (or nothing)
                self.report("twice", st, "the source is read a second time")
                continue
            b = cur.upd(stored=0)
            if var is not None:
                b = b.set(var, ("batch", 0) if other else ("item",))
            br = {}
            out = self.block(st.body, {b}, br, None) | br.get("continue", set())
            for x in br.get("break", set()):
                self.report("end", st, "stops before the source is exhausted")
                exits.add(x.upd(stored=-1))
            for x in out:
                if x.stored == 0 and not any(q == UNKNOWN for _, q in x.objs):
                    self.report("lost", st, "a record is neither stored nor delivered on some path through the loop")
                y = x.upd(stored=-1)
                if var is not None:
                    y = y.set(var, None)
                work.append(y)
        done = {h.upd(exhausted=True) for h in heads if not h.exhausted}
        if st.orelse:
            br = {}
            done = self.block(st.orelse, done, br, None)
        return done | exits

    def loop_while(self, st: ast.While, s: State) -> set[State]:
        seen: set[State] = set()
        work = [s]
        exits: set[State] = set()
        while work:
            cur = work.pop()
            if cur in seen:
                continue
            seen.add(cur)
            exits |= self.cond(st.test, cur, False)
            br: dict = {}
            out = self.block(st.body, self.cond(st.test, cur, True), br, None) | br.get("continue", set())
            exits |= br.get("break", set())
            work += list(out)
            if len(seen) > 5000:
                break
        if st.orelse:
            exits = self.block(st.orelse, exits, {}, None)
        return exits
