"""
Abstract evaluator: builds a gated value graph for a function.

Every expression is mapped to a term, branches to gated (`if`/`phi`) terms, loops and comprehensions to `for` items, and
helper functions are expanded in place up to a bound. List-, set- and generator-building code thereby has one normal form
irrespective of how it is written. No path conditions are solved; conditions are compared only structurally.
"""

from __future__ import annotations

import ast
from dataclasses import dataclass, field
from typing import Callable, Iterable, Iterator, Optional

from .program import AnalysisError, ClassInfo, FuncInfo, Module, Program, dotted, walk_own
from .terms import (FALSE, NONE_T, T, TRUE, closure_env, conj, const, contains, disj, is_const, literals, neg, phi, rewrite, tmpl, uid, walk)
from .types import ANY, BOOL, BYTES, INT, NONE, STR, Ty, TypeResolver, alts, strip_none, union

MAX_DEPTH = 12


class State:
    __slots__ = ("env", "heap", "pc", "attrs", "narrow")

    def __init__(self) -> None:
        self.env: dict[str, T] = {}
        self.heap: dict[int, T] = {0: T("seq", ("trace", ()))}
        self.pc: tuple[T, ...] = ()
        self.attrs: dict[tuple[T, str], T] = {}
        self.narrow: dict[T, Ty] = {}

    def copy(self) -> "State":
        s = State.__new__(State)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.attrs = dict(self.attrs)
        s.narrow = dict(self.narrow)
        return s

    def become(self, o: "State") -> None:
        self.env, self.heap, self.pc, self.attrs, self.narrow = o.env, o.heap, o.pc, o.attrs, o.narrow


@dataclass
class Outcome:
    kind: str  # fall | return | raise | continue | break
    state: State
    value: Optional[T] = None
    loc: Optional[str] = None


@dataclass
class Frame:
    func: FuncInfo
    self_cls: Optional[ClassInfo]
    yields: int
    raises: list = field(default_factory=list)
    parent_env: Optional[dict] = None


@dataclass
class Result:
    value: T
    trace: tuple
    yields: tuple
    raises: list
    state: State
    outcomes: list
    returns: list = field(default_factory=list)  # (value, path condition) of each path that ends normally


def lcp(a: tuple, b: tuple) -> int:
    n = 0
    for x, y in zip(a, b):
        if x is y or x == y:
            n += 1
        else:
            break
    return n


def merge_items(c: T, a: tuple, b: tuple, n: Optional[int] = None) -> tuple:
    n = lcp(a, b) if n is None else n
    sa, sb = a[n:], b[n:]
    if not sa and not sb:
        return a
    if is_const(c, True):
        return a
    if is_const(c, False):
        return b
    if c.op == "not":
        return a[:n] + (T("if", (c.args[0], sb, sa)),)
    return a[:n] + (T("if", (c, sa, sb)),)


ANY_OBJECT = T("anyobject")


class NoReturn(Exception):
    "Evaluation reached a call that never returns normally."

    def __init__(self, state: State) -> None:
        self.state = state


def loops_of(st: "State") -> int:
    return sum(1 for p in st.pc if p.op == "each")


def top(f: FuncInfo) -> FuncInfo:
    while f.parent is not None:
        f = f.parent
    return f


def calls_to(r: "Result", f: FuncInfo) -> Iterator[T]:
    "Calls of a function on the paths of another."
    def go(items: Iterable[T]) -> Iterator[T]:
        for i in items:
            if i.op == "for":
                yield from go(i.args[2])
            elif i.op == "if":
                yield from go(i.args[1])
                yield from go(i.args[2])
            elif i.op == "call" and i.meta is f:
                yield i

    yield from go(r.trace)
    for o in r.raises:
        yield from go(o.state.heap[0].args[1])


def element_typed(v: T) -> Ty:
    if v.op == "seq" and v.ty.kind == "any":
        return Ty("ext", "list", (union([element_typed(i.args[0]) for i in v.args[1] if i.op == "item"] or [ANY]),))
    return v.ty


def removing(s: ast.For) -> Optional[ast.stmt]:
    "A loop over a copy of a list that removes items from the list keeps the others."
    it = s.iter
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("list", "tuple") and len(it.args) == 1 and not it.keywords:
        src = it.args[0]
    elif isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "copy" and not it.args:
        src = it.func.value
    elif isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice) and it.slice.lower is None and it.slice.upper is None and it.slice.step is None:
        src = it.value
    else:
        return None
    b = s.body[0]
    if not (isinstance(src, ast.Name) and isinstance(s.target, ast.Name) and len(s.body) == 1 and not s.orelse and isinstance(b, ast.If) and not b.orelse and len(b.body) == 1):
        return None
    c = b.body[0].value if isinstance(b.body[0], ast.Expr) else None
    if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "remove" and isinstance(c.func.value, ast.Name) and c.func.value.id == src.id
            and len(c.args) == 1 and isinstance(c.args[0], ast.Name) and c.args[0].id == s.target.id):
        return None
    name = s.target.id
    comp = ast.ListComp(elt=ast.Name(name, ast.Load()), generators=[ast.comprehension(target=ast.Name(name, ast.Store()), iter=ast.Name(src.id, ast.Load()), ifs=[ast.UnaryOp(ast.Not(), b.test)], is_async=0)])
    out = ast.Assign(targets=[ast.Name(src.id, ast.Store())], value=comp)
    for n in ast.walk(out):
        if not hasattr(n, "lineno"):
            ast.copy_location(n, s)
    return ast.fix_missing_locations(out)


def draining(s: ast.While) -> Optional[list[ast.stmt]]:
    "A loop that draws the next item until the iterator is exhausted visits every remaining item."
    if not (isinstance(s.test, ast.Constant) and s.test.value and not s.orelse and s.body and isinstance(s.body[0], ast.Try)):
        return None
    t = s.body[0]
    if len(t.body) != 1 or t.finalbody or len(t.handlers) != 1:
        return None
    a, h = t.body[0], t.handlers[0]
    if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Name) and a.value.func.id == "next"
            and len(a.value.args) == 1 and isinstance(a.value.args[0], ast.Name) and isinstance(h.type, ast.Name) and h.type.id == "StopIteration"):
        return None
    body = t.orelse + s.body[1:]
    it = a.value.args[0].id
    if any(isinstance(n, ast.Name) and n.id == it for b in body for n in ast.walk(b)) or not isinstance(h.body[-1], (ast.Return, ast.Raise, ast.Break)):
        return None
    if any(isinstance(n, (ast.Break, ast.Continue)) for b in body + h.body[:-1] for n in ast.walk(b)):
        return None
    after = h.body[:-1] if isinstance(h.body[-1], ast.Break) else h.body
    loop = ast.For(target=a.targets[0], iter=a.value.args[0], body=body or [ast.Pass()], orelse=[], type_comment=None)
    ast.copy_location(loop, s)
    return [ast.fix_missing_locations(loop), *after]


def flagged(src: T, v: T, carried: T, init: T, last: T) -> Optional[T]:
    "A flag that a loop sets if a condition holds for an element."
    if last.op not in ("or", "and") or carried not in last.args:
        return None
    rest = [x for x in last.args if x != carried]
    if not all(x.op in ("cmp", "isinstance", "isnone", "in", "not", "and", "or", "exists") for x in rest) or any(carried in set(walk(x)) for x in rest):
        return None
    if last.op == "or":
        return disj([init, T("exists", (src, v, disj(rest)), BOOL)])
    return conj([init, neg(T("exists", (src, v, neg(conj(rest))), BOOL))])


class Interp:
    def __init__(self, prog: Program, tr: Optional[TypeResolver] = None,
                 inline: Optional[Callable[[FuncInfo, Optional[T]], bool]] = None,
                 max_depth: int = MAX_DEPTH) -> None:
        self.prog = prog
        self.tr = tr or TypeResolver(prog)
        self.inline = inline or (lambda f, recv: False)
        # functions whose value is given by what another property establishes of them
        self.summary: Callable[[FuncInfo, dict[str, T]], Optional[T]] = getattr(inline, "summary", None) or (lambda f, bound: None)
        self.max_depth = max_depth
        self.functions: dict[int, FuncInfo] = {}
        self.frames: list[Frame] = []
        self.exact: dict[T, ClassInfo] = {}
        self.visited: set[str] = set()
        self.current: dict[T, T] = {}
        self.set_iterations: list[str] = []  # where a set built in the analysed code is iterated in an unspecified order
        self.split = False
        self.born: dict[int, int] = {}  # the number of loops that a container is created in
        self.steps = 0
        self.effects: Callable[[FuncInfo], Iterable[str]] = lambda f: ()  # attributes that a call left opaque may assign
        self.unwind = False  # run `finally` blocks for exceptions that nothing on the path handles

    # -- entry ----------------------------------------------------------------------------------------------------

    def run(self, f: FuncInfo, self_cls: Optional[ClassInfo] = None, args: Optional[dict[str, T]] = None,
            closure: Optional[dict[str, T]] = None) -> Result:
        st = State()
        if closure:
            st.env.update(closure)
        bound = {**{k[1:]: v for k, v in (closure or {}).items() if k.startswith("=")}, **(args or {})}
        names = self.param_names(f)
        a = f.args
        owner = f.cls if f.parent is None else None
        for i, n in enumerate(names):
            if n in bound:
                st.env[n] = bound[n]
            elif i == 0 and owner is not None and not f.is_static:
                c = self_cls or owner
                if f.is_classmethod:
                    st.env[n] = T("class", (c,))
                else:
                    st.env[n] = T("param", ("self",), Ty("cls", c))
                    self.exact[st.env[n]] = c
            else:
                st.env[n] = T("param", (n,), self.param_type(f, n))
        r = self._run_body(f, self_cls or owner, st)
        r.value = self.freeze(r.value, r.state)
        return r

    def _run_body(self, f: FuncInfo, self_cls: Optional[ClassInfo], st: State) -> Result:
        self.visited.add(f.qualname)
        yid = uid()
        st.heap[yid] = T("seq", ("yield", ()))
        frame = Frame(f, self_cls, yid)
        self.frames.append(frame)
        base_pc = st.pc
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st)
                outs = [Outcome("return", st, v)]
            else:
                outs = self.exec_block(f.node.body, st)  # type: ignore
        finally:
            self.frames.pop()
        normal = [o for o in outs if o.kind in ("fall", "return")]
        raises = [o for o in outs if o.kind == "raise"]
        frame.raises.extend(raises)
        if not normal:
            s = raises[0].state if raises else st
            return Result(T("bottom"), s.heap[0].args[1], s.heap.get(yid, st.heap[yid]).args[1], frame.raises, s, outs)
        returns = [(self.freeze(o.value, o.state) if o.value is not None else NONE_T, o.state.pc) for o in normal]
        state, value = self.merge_outcomes(normal, base_pc)
        state.pc = base_pc
        y = state.heap[yid]
        return Result(value, state.heap[0].args[1], y.args[1] if y.op == "seq" else (T("splice", (y,)),), frame.raises, state, outs, returns)

    def merge_outcomes(self, outs: list[Outcome], base_pc: tuple) -> tuple[State, T]:
        acc = outs[-1]
        st, val = acc.state, acc.value if acc.value is not None else NONE_T
        acc_outs = [acc]
        for o in reversed(outs[:-1]):
            n = lcp(o.state.pc, st.pc)
            n = max(n, 0)
            c = conj(o.state.pc[n:])
            if is_const(c, True):
                # the remaining paths are more specific
                c2 = conj(st.pc[n:])
                c = neg(c2)
            v = o.value if o.value is not None else NONE_T
            val = self.phi_val(c, v, val, o.state, st)
            st = self.merge(c, o.state, st)
        return st, val

    def phi_val(self, c: T, a: T, b: T, sa: State, sb: State) -> T:
        if a.op == "ref" and a == b:
            return a
        return phi(c, self.freeze(a, sa) if a.op == "ref" else a, self.freeze(b, sb) if b.op == "ref" else b)

    # -- parameters ----------------------------------------------------------------------------------------------

    @staticmethod
    def param_names(f: FuncInfo) -> list[str]:
        a = f.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg:
            names.append(a.vararg.arg)
        names += [x.arg for x in a.kwonlyargs]
        if a.kwarg:
            names.append(a.kwarg.arg)
        return names

    def param_type(self, f: FuncInfo, name: str) -> Ty:
        a = f.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == name:
                ty = self.tr.annot(f.module, x.annotation)
                vague = x.annotation is None or f.name.startswith("_") and (ty.kind == "any" or ty.is_ext("list", "set", "dict", "tuple", "iterable") and not ty.args)
                if vague and (given := self.given_type(f, name)).kind != "any":
                    return given
                return ty
        if a.vararg and a.vararg.arg == name:
            return Ty("ext", "list", (self.tr.annot(f.module, a.vararg.annotation),))
        if a.kwarg and a.kwarg.arg == name:
            return Ty("ext", "dict", (STR, self.tr.annot(f.module, a.kwarg.annotation)))
        return ANY

    def given_type(self, f: FuncInfo, name: str) -> Ty:
        "Type of a parameter that has no annotation: what the calls in the program pass."
        known: dict[FuncInfo, dict[str, Ty]] = self.prog.__dict__.setdefault("_given_types", {})
        if f not in known:
            known[f] = {}
            if isinstance(f.node, ast.Lambda) or f.parent is not None or f.name.startswith("__"):
                return ANY
            callers = self.prog.__dict__.get("_callers")
            if callers is None:
                callers = self.prog.__dict__["_callers"] = {}
                for g in self.prog.functions():
                    for n in ast.walk(g.node):
                        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                            callers.setdefault(n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id, {})[g if g.parent is None else top(g)] = True
            types: dict[str, list[Ty]] = {}
            for g in callers.get(f.name, {}):
                it = Interp(self.prog, self.tr)
                r = it.run(g, g.cls)
                for e in calls_to(r, f):
                    for p, v in e.args[2]:
                        types.setdefault(p, []).append(element_typed(v))
            known[f] = {p: union(ts) for p, ts in types.items()}
        return known[f].get(name, ANY)

    def bind(self, f: FuncInfo, pos: list[T], kw: dict[str, T], recv: Optional[T], bound_self: bool) -> Optional[dict[str, T]]:
        a = f.args
        params = [x.arg for x in a.posonlyargs + a.args]
        out: dict[str, T] = {}
        if bound_self and params:
            out[params[0]] = recv  # type: ignore
            params = params[1:]
        for i, v in enumerate(pos):
            if v.op == "star":
                return None
            if i < len(params):
                out[params[i]] = v
            elif a.vararg:
                prev = out.get(a.vararg.arg)
                items = prev.args[1] if prev is not None else ()
                out[a.vararg.arg] = T("seq", ("list", items + (T("item", (v,)),)), Ty("ext", "list", (self.tr.annot(f.module, a.vararg.annotation),)))
            else:
                return None
        allowed = set(params) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k == "**":
                return None
            if k in allowed:
                out[k] = v
            elif a.kwarg:
                pass
            else:
                return None
        return out

    def defaults(self, f: FuncInfo) -> dict[str, ast.expr]:
        a = f.args
        pos = a.posonlyargs + a.args
        out: dict[str, ast.expr] = {}
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[x.arg] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[x.arg] = d
        return out

    # -- state helpers --------------------------------------------------------------------------------------------

    @property
    def frame(self) -> Frame:
        return self.frames[-1]

    def loc(self, node: ast.AST) -> str:
        return self.frame.func.loc(node) if self.frames else "?"

    def merge(self, c: T, a: State, b: State) -> State:
        s = State.__new__(State)
        s.pc = a.pc[: lcp(a.pc, b.pc)]
        s.env = {}
        for k in a.env.keys() | b.env.keys():
            x, y = a.env.get(k), b.env.get(k)
            if x is None:
                s.env[k] = y  # type: ignore
            elif y is None:
                s.env[k] = x
            elif x == y:
                s.env[k] = x
            else:
                s.env[k] = self.phi_val(c, x, y, a, b)
        s.heap = {}
        for k in a.heap.keys() | b.heap.keys():
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None:
                s.heap[k] = y  # type: ignore
            elif y is None or x is y or x == y and k != 0:
                s.heap[k] = x
            elif k == 0:
                # events are told apart by the path on which they occur, even if they are equal
                n = 0
                while n < min(len(x.args[1]), len(y.args[1])) and x.args[1][n] is y.args[1][n]:
                    n += 1
                s.heap[k] = T("seq", (x.args[0], merge_items(c, x.args[1], y.args[1], n)), x.ty)
            elif x.op == "seq" and y.op == "seq" and x.args[0] == y.args[0]:
                s.heap[k] = T("seq", (x.args[0], merge_items(c, x.args[1], y.args[1])), x.ty)
            else:
                s.heap[k] = phi(c, x, y)
        s.attrs = {}
        for k in a.attrs.keys() | b.attrs.keys():
            x, y = a.attrs.get(k), b.attrs.get(k)
            if x is None:
                x = T("attr", (k[0], k[1]), y.ty)  # type: ignore
            if y is None:
                y = T("attr", (k[0], k[1]), x.ty)
            s.attrs[k] = x if x == y else self.phi_val(c, x, y, a, b)
        s.narrow = {k: v for k, v in a.narrow.items() if b.narrow.get(k) == v}
        return s

    def freeze(self, t: T, st: State) -> T:
        if t.op == "const" or t.op == "param":
            return t
        seen: list[int] = []

        def fn(x: T) -> Optional[T]:
            if x.op == "ref":
                h = st.heap.get(x.args[0])
                if h is None or x.args[0] in seen:
                    return T("unknown", ("ref",), x.ty)
                if h.op == "seq" and h.args[0] == "list" and len(h.args[1]) == 1 and h.args[1][0].op == "splice" and h.args[1][0].args[0].op not in ("seq", "reversed", "sorted", "phi"):
                    # a copy that has not been changed
                    return rewrite(h.args[1][0].args[0], fn).with_ty(x.ty)
                seen.append(x.args[0])
                r = rewrite(h, fn)
                seen.pop()
                return r.with_ty(x.ty if x.ty.kind != "any" else r.ty)
            return None

        if not any(x.op == "ref" for x in walk(t)):
            return t
        return rewrite(t, fn)

    def new_ref(self, st: State, kind: str, items: tuple = (), ty: Ty = ANY) -> T:
        i = uid()
        st.heap[i] = T("seq", (kind, items), ty)
        self.born[i] = loops_of(st)
        return T("ref", (i,), ty)

    def emit(self, st: State, ev: T) -> None:
        tr = st.heap[0]
        ev.pc = st.pc
        st.heap[0] = T("seq", ("trace", tr.args[1] + (ev,)))

    def append_item(self, st: State, ref: T, item: T) -> None:
        h = st.heap.get(ref.args[0])
        if h is not None and h.op == "seq":
            st.heap[ref.args[0]] = T("seq", (h.args[0], h.args[1] + (item,)), h.ty)
        else:
            st.heap[ref.args[0]] = T("seq", ("list", (T("splice", (h if h is not None else T("unknown"),)), item)))

    def facts(self, st: State) -> frozenset:
        return frozenset().union(*[literals(p) for p in st.pc]) if st.pc else frozenset()

    def known(self, c: T, st: State) -> T:
        "Folds a condition that the path condition already decides."
        if c.op == "const":
            return c
        f = self.facts(st)
        if not f:
            return c

        def go(x: T) -> T:
            if (x, True) in f:
                return TRUE
            if (x, False) in f:
                return FALSE
            if x.op == "not":
                return neg(go(x.args[0]))
            if x.op == "and":
                return conj(go(y) for y in x.args)
            if x.op == "or":
                return disj(go(y) for y in x.args)
            if x.op not in ("isnone", "cmp", "in", "isinstance", "const"):
                if (T("isnone", (x,), BOOL), True) in f:
                    return FALSE
            return x

        return go(c)

    def assume(self, st: State, c: T, pol: bool) -> None:
        lit = c if pol else neg(c)
        if not is_const(lit, True):
            st.pc = st.pc + (lit,)
        for a, p in literals(lit):
            if a.op == "isinstance" and p:
                st.narrow[a.args[0]] = a.args[1] if isinstance(a.args[1], Ty) else ANY

    # -- statements -----------------------------------------------------------------------------------------------

    def exec_block(self, stmts: list[ast.stmt], st: State) -> list[Outcome]:
        outs: list[Outcome] = []
        cur = st
        for s in stmts:
            res = self.exec_stmt(s, cur)
            falls = [o for o in res if o.kind == "fall"]
            outs.extend(o for o in res if o.kind != "fall")
            if not falls:
                return outs
            if len(falls) == 1:
                cur = falls[0].state
            else:
                cur, _ = self.merge_outcomes(falls, ())
        outs.append(Outcome("fall", cur))
        return outs

    def exec_stmt(self, s: ast.stmt, st: State) -> list[Outcome]:
        depth = len(self.frames)
        try:
            return self._exec_stmt(s, st)
        except NoReturn as n:
            del self.frames[depth:]
            return [Outcome("raise", n.state, T("bottom"), self.loc(s))]

    def _exec_stmt(self, s: ast.stmt, st: State) -> list[Outcome]:
        self.steps += 1
        if self.steps > 2_000_000:
            raise AnalysisError("evaluation bound exceeded")
        fall = [Outcome("fall", st)]
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return fall
            self.ev(s.value, st)
            return fall
        if isinstance(s, ast.Pass):
            return fall
        if isinstance(s, ast.Return):
            v = self.ev(s.value, st) if s.value is not None else NONE_T
            return [Outcome("return", st, v, self.loc(s))]
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, st)
            for t in s.targets:
                self.assign(t, v, st)
            return fall
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                v = self.ev(s.value, st)
                ty = self.tr.annot(self.frame.func.module, s.annotation)
                if ty.kind != "any":
                    if v.op == "ref":
                        h = st.heap[v.args[0]]
                        v = v.with_ty(ty if v.ty.kind == "any" or not v.ty.args else v.ty)
                    elif v.ty.kind == "any":
                        v = v.with_ty(ty)
                self.assign(s.target, v, st)
            return fall
        if isinstance(s, ast.AugAssign):
            cur = self.ev(s.target, st)  # type: ignore
            v = self.ev(s.value, st)
            if cur.op == "ref" and isinstance(s.op, (ast.Add, ast.BitOr)):
                self.extend(st, cur, v, s)
            else:
                self.assign(s.target, self.binop(s.op, cur, v, st, s), st)
            return fall
        if isinstance(s, ast.If):
            c = self.cond(s.test, st)
            if is_const(c):
                return self.exec_block(s.body if c.args[0] else s.orelse, st)
            sa, sb = st, st.copy()
            sa = st.copy()
            self.assume(sa, c, True)
            self.assume(sb, c, False)
            oa = self.exec_block(s.body, sa)
            ob = self.exec_block(s.orelse, sb)
            fa = [o for o in oa if o.kind == "fall"]
            fb = [o for o in ob if o.kind == "fall"]
            others = [o for o in oa + ob if o.kind != "fall"]
            if fa and fb:
                m = self.merge(c, fa[0].state, fb[0].state)
                m.pc = st.pc + tuple(x for x in ())
                # facts that hold on both branches remain known
                return others + [Outcome("fall", m)]
            return others + fa + fb
        if isinstance(s, ast.For) and (kept := removing(s)) is not None:
            return self.exec_stmt(kept, st)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            src = self.ev(s.iter, st)
            names = self.stored_names(s.body, st)

            saved = self.split

            def body(x: T, bst: State) -> list[Outcome]:
                old, self.split = self.split, False
                try:
                    self.assign(s.target, x, bst)
                    return self.exec_block(s.body, bst)
                finally:
                    self.split = old

            self.split = bool(s.orelse)
            try:
                outs = self.iterate(src, st, body, names, s)
            finally:
                self.split = saved
            res: list[Outcome] = []
            found = [o for o in outs if o.kind == "loopbreak"]
            falls: list[Outcome] = []
            for o in outs:
                if o.kind == "fall" and s.orelse:
                    for q in self.exec_block(s.orelse, o.state):
                        (falls if q.kind == "fall" else res).append(q)
                elif o.kind != "loopbreak":
                    res.append(o)
            if found and falls and len(st.pc) < len(found[0].state.pc):
                m = self.merge(found[0].state.pc[len(st.pc)], found[0].state, falls[0].state)
                m.pc = st.pc
                return res + [Outcome("fall", m)]
            return res + [Outcome("fall", o.state) for o in found] + falls
        if isinstance(s, ast.While) and (drained := draining(s)) is not None:
            return self.exec_block(drained, st)
        if isinstance(s, ast.While):
            names = self.stored_names(s.body, st)
            c0: list[T] = []

            def wbody(x: T, bst: State) -> list[Outcome]:
                c = self.cond(s.test, bst)
                c0.append(c)
                self.assume(bst, c, True)
                return self.exec_block(s.body, bst)

            src = T("while", (uid(),))
            return self.run_loop(src, st, wbody, names, ANY, s)
        if isinstance(s, ast.Raise):
            v = self.ev(s.exc, st) if s.exc is not None else T("reraise")
            cause = self.ev(s.cause, st) if s.cause is not None else NONE_T
            self.emit(st, T("raise", (self.freeze(v, st), self.freeze(cause, st)), loc=self.loc(s)))
            return [Outcome("raise", st, v, self.loc(s))]
        if isinstance(s, ast.Assert):
            c = self.cond(s.test, st)
            self.assume(st, c, True)
            return fall
        if isinstance(s, ast.Continue):
            return [Outcome("continue", st)]
        if isinstance(s, ast.Break):
            return [Outcome("break", st)]
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                v = self.ev(it.context_expr, st)
                ent = v if v.op in ("ref", "param", "new") else T("enter", (self.freeze(v, st),), self.enter_type(v, isinstance(s, ast.AsyncWith)), self.loc(s))
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, ent, st)
            return self.exec_block(s.body, st)
        if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            return self.exec_try(s, st)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            st.env[s.name] = self.closure(s, s.name, None, ANY, st)
            return fall
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    b = self.ev(t.value, st)
                    i = self.ev(t.slice, st)
                    self.emit(st, T("delitem", (self.freeze(b, st), self.freeze(i, st)), loc=self.loc(s)))
            return fall
        if isinstance(s, (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.ClassDef)):
            return fall
        if isinstance(s, ast.Match):
            subj = self.ev(s.subject, st)
            outs = []
            for case in s.cases:
                b = st.copy()
                self.assume(b, T("case", (self.freeze(subj, st), ast.dump(case.pattern))), True)
                outs.extend(self.exec_block(case.body, b))
            outs.append(Outcome("fall", st))
            return outs
        raise AnalysisError(f"{self.loc(s)}: unsupported statement {type(s).__name__}")

    def exec_try(self, s: ast.Try, st: State) -> list[Outcome]:
        before = len(self.frame.raises) if self.frames else 0
        body = self.exec_block(s.body, st.copy())
        if self.frames:  # what a handler swallows does not leave the function
            self.frame.raises[before:] = [o for o in self.frame.raises[before:] if not self.swallowed(s, o)]
        body = [o for o in body if o.kind != "raise" or not self.swallowed(s, o)]
        outs: list[Outcome] = []
        for o in body:
            if o.kind == "fall" and s.orelse:
                outs.extend(self.exec_block(s.orelse, o.state))
            else:
                outs.append(o)
        for h in s.handlers:
            names = [dotted(e) or "?" for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else ["BaseException"]
            hs = st.copy()
            lit = T("exc", (tuple(names), s.lineno), BOOL, self.loc(h))
            hs.pc = hs.pc + (lit,)
            if h.name:
                hs.env[h.name] = T("caught", (tuple(names), s.lineno))
            outs.extend(self.exec_block(h.body, hs))
        # merge fall outcomes pairwise: handlers first
        falls = [o for o in outs if o.kind == "fall"]
        rest = [o for o in outs if o.kind != "fall"]
        if falls:
            if len(falls) > 1:
                first, others = falls[0], falls[1:]
                m = first.state
                for o in others:
                    m = self.merge(o.state.pc[lcp(o.state.pc, st.pc):][0] if len(o.state.pc) > lcp(o.state.pc, st.pc) else T("exc", ("?",)), o.state, m)
                falls = [Outcome("fall", m)]
        outs = rest + falls
        if s.finalbody:
            final: list[Outcome] = []
            if self.unwind:
                us = st.copy()
                us.pc = us.pc + (T("exc", (("*",), s.lineno), BOOL, self.loc(s)),)
                outs = outs + [Outcome("raise", us, T("unwinding"))]
            for o in outs:
                r = self.exec_block(s.finalbody, o.state)
                for q in r:
                    if q.kind == "fall":
                        final.append(Outcome(o.kind, q.state, o.value, o.loc))
                    else:
                        final.append(q)
            outs = final
        return outs

    def swallowed(self, s: ast.Try, o: Outcome) -> bool:
        "Whether a handler of the statement takes the exception and does not raise in turn."
        v = o.value
        mro: set[str] = {"Exception", "BaseException"}
        if v is not None and v.op == "new" and isinstance(v.args[0], ClassInfo):
            mro |= {c.name for c in v.args[0].project_mro()}
        elif v is not None and v.op == "unwinding":
            return False
        for h in s.handlers:
            names = [(dotted(e) or "?").rpartition(".")[2] for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else ["BaseException"]
            if any(n in mro for n in names):
                return not any(isinstance(n, ast.Raise) for n in walk_own(h))
        return False

    def enter_type(self, v: T, is_async: bool) -> Ty:
        t = strip_none(v.ty)
        if t.kind == "cls":
            m = t.ref.find_method("__aenter__" if is_async else "__enter__")  # type: ignore
            if m is not None:
                return self.tr.ret(m, t)
        return t if t.kind != "coro" else ANY

    def without_none(self, items: tuple) -> tuple:
        "The items of a set from which None has been removed."
        out: list[T] = []
        for i in items:
            if i.op == "item":
                n = self.is_none(i.args[0])
                if is_const(n, True):
                    continue
                out.append(i if is_const(n, False) else T("if", (neg(n), (i,), ())))
            elif i.op == "for":
                out.append(T("for", (i.args[0], i.args[1], self.without_none(i.args[2])) + i.args[3:], i.ty, i.loc))
            elif i.op == "if":
                out.append(T("if", (i.args[0], self.without_none(i.args[1]), self.without_none(i.args[2])), i.ty, i.loc))
            elif i.op == "splice" and i.args[0].op == "seq":
                out.extend(self.without_none(i.args[0].args[1]))
            else:
                out.append(i)
                out.append(T("discard", (NONE_T,)))
        return tuple(out)

    # -- iteration ------------------------------------------------------------------------------------------------

    def iterate(self, src: T, st: State, body: Callable[[T, State], list[Outcome]], names: set[str], node: ast.AST,
                wrap: Callable[[T], T] = lambda x: x) -> list[Outcome]:
        "Runs a loop body over an iterable term, fusing statically known sequences."
        src = self.view(src, st)
        if src.op == "enumerate":
            inner, start = src.args
            fz = self.freeze(inner, st)
            pos = T("pos", (fz, start), INT)
            return self.iterate(inner, st, body, names, node, lambda x: wrap(T("tup", (pos, x), Ty("ext", "tuple", (INT, x.ty)))))
        if src.op == "indices":
            inner, start = src.args
            pos = T("pos", (inner, start), INT)

            def at(x: T) -> T:
                self.current[inner] = x
                return wrap(pos)

            return self.iterate(inner, st, body, names, node, at)
        if src.op == "zip":
            comps = src.args
            real = [c for c in comps if not self.is_counter(c)]
            if real and len(real) < len(comps) or len(real) == 1:
                base = real[0] if len(real) == 1 else T("zip", tuple(real))
                fz = self.freeze(base, st)

                def rebuild(x: T) -> T:
                    parts: list[T] = []
                    k = 0
                    for c in comps:
                        if self.is_counter(c):
                            parts.append(T("pos", (fz, self.counter_start(c)), INT))
                        elif len(real) == 1:
                            parts.append(x)
                        else:
                            parts.append(self.proj(x, k))
                            k += 1
                    return wrap(T("tup", tuple(parts), Ty("ext", "tuple", tuple(p.ty for p in parts))))

                return self.iterate(base, st, body, names, node, rebuild)
            fused = self.zip_static([self.view(c, st) for c in comps])
            if fused is not None:
                return self.iter_items(fused, st, body, names, node, wrap)
            fz = tuple(self.freeze(c, st) for c in comps)
            ety = Ty("ext", "tuple", tuple(self.tr.elem(c.ty) for c in comps))
            return self.run_loop(T("zip", fz, Ty("ext", "list", (ety,))), st, lambda v, s2: body(wrap(T("tup", tuple(self.proj(v, i) for i in range(len(fz))), ety)), s2), names, ety, node)
        if src.op == "seq":
            if src.args[0] == "set" and src.args[1]:
                self.set_iterations.append(self.loc(node))
            return self.iter_items(src.args[1], st, body, names, node, wrap)
        if src.op == "tup":
            return self.iter_items(tuple(T("item", (x,)) for x in src.args), st, body, names, node, wrap)
        if src.op == "phi":
            c = src.args[0]
            sa, sb = st.copy(), st.copy()
            self.assume(sa, c, True)
            self.assume(sb, c, False)
            oa = self.iterate(src.args[1], sa, body, names, node, wrap)
            ob = self.iterate(src.args[2], sb, body, names, node, wrap)
            fa = [o for o in oa if o.kind == "fall"]
            fb = [o for o in ob if o.kind == "fall"]
            others = [o for o in oa + ob if o.kind != "fall"]
            if fa and fb:
                m = self.merge(c, fa[0].state, fb[0].state)
                m.pc = st.pc
                return others + [Outcome("fall", m)]
            return others + fa + fb
        if src.op == "const" and src.args[0] is None:
            return [Outcome("fall", st)]
        fz = self.freeze(src, st)
        ety = self.tr.elem(fz.ty)
        return self.run_loop(fz, st, lambda v, s2: body(wrap(v), s2), names, ety, node)

    @staticmethod
    def is_counter(c: T) -> bool:
        return c.op == "indices" or (c.op == "call" and c.args[0] in ("range", "itertools.count"))

    @staticmethod
    def counter_start(c: T) -> T:
        if c.op == "indices":
            return c.args[1]
        args = [v for _, v in c.args[2] if isinstance(v, T)]
        if c.args[0] == "itertools.count":
            return args[0] if args else const(0)
        return args[0] if len(args) > 1 else const(0)

    def zip_static(self, comps: list[T]) -> Optional[tuple]:
        "Zips sequences that have been built by loops of the same shape."
        if not all(c.op in ("seq", "tup") for c in comps):
            return None
        lists = [c.args[1] if c.op == "seq" else tuple(T("item", (x,)) for x in c.args) for c in comps]

        def z(ls: list[tuple]) -> Optional[tuple]:
            if len({len(x) for x in ls}) != 1:
                return None
            out: list[T] = []
            for row in zip(*ls):
                ops = {r.op for r in row}
                if ops == {"item"}:
                    out.append(T("item", (T("tup", tuple(r.args[0] for r in row), Ty("ext", "tuple", tuple(r.args[0].ty for r in row))),)))
                elif ops == {"if"} and all(r.args[0] == row[0].args[0] for r in row):
                    a = z([r.args[1] for r in row])
                    b = z([r.args[2] for r in row])
                    if a is None or b is None:
                        return None
                    out.append(T("if", (row[0].args[0], a, b)))
                else:
                    return None
            return tuple(out)

        return z(lists)

    def view(self, src: T, st: State) -> T:
        if src.op == "ref":
            h = st.heap.get(src.args[0])
            if h is None:
                return T("unknown", (), src.ty)
            if src.ty.kind != "any" and h.op == "seq":
                return h.with_ty(src.ty)
            return h
        return src

    def iter_items(self, items: tuple, st: State, body, names: set[str], node: ast.AST, wrap, inner: bool = False) -> list[Outcome]:
        "`inner`: the items are a part of those iterated over, and leaving the loop early is left to the whole."
        cur = st
        outs: list[Outcome] = []
        for it in items:
            if it.op == "item":
                res = body(wrap(it.args[0]), cur)
            elif it.op == "kv":
                res = body(wrap(it.args[0]), cur)
            elif it.op == "for":
                src, v, sub = it.args[:3]

                def rerun(bv: T, s2: State, v=v, sub=sub, ends=it.args[4] if len(it.args) > 4 else None) -> list[Outcome]:
                    sub2 = tuple(rewrite(x, lambda y: bv.with_ty(v.ty) if y == v else None) for x in sub)
                    outs2 = self.iter_items(sub2, s2, body, names, node, wrap, True)
                    if ends is not None and not is_const(ends, False):
                        # the items end where the loop that made them was left
                        here = rewrite(ends, lambda y: bv.with_ty(v.ty) if y == v else None)
                        split: list[Outcome] = []
                        for o in outs2:
                            if o.kind not in ("fall", "continue"):
                                split.append(o)
                                continue
                            left, stays = o.state.copy(), o.state.copy()
                            left.pc = left.pc + (here,)
                            stays.pc = stays.pc + (neg(here),)
                            split += [Outcome("break", left), Outcome(o.kind, stays)]
                        outs2 = split
                    return outs2

                res = self.run_loop(src, cur, rerun, names, v.ty, node)
            elif it.op == "if":
                c = self.known(it.args[0], cur)
                if is_const(c):
                    res = self.iter_items(it.args[1] if c.args[0] else it.args[2], cur, body, names, node, wrap, True)
                else:
                    sa, sb = cur.copy(), cur.copy()
                    self.assume(sa, c, True)
                    self.assume(sb, c, False)
                    oa = self.iter_items(it.args[1], sa, body, names, node, wrap, True)
                    ob = self.iter_items(it.args[2], sb, body, names, node, wrap, True)
                    fa = [o for o in oa if o.kind in ("fall", "continue")]
                    fb = [o for o in ob if o.kind in ("fall", "continue")]
                    res = [o for o in oa + ob if o.kind not in ("fall", "continue")]
                    if fa and fb:
                        ma, _ = self.merge_outcomes(fa, ())
                        mb, _ = self.merge_outcomes(fb, ())
                        m = self.merge(c, ma, mb)
                        m.pc = cur.pc
                        res.append(Outcome("fall", m))
                    else:
                        res.extend(fa + fb)
            elif it.op == "splice":
                res = self.iterate(it.args[0], cur, body, names, node, wrap)
            else:
                res = self.run_loop(T("unknownseq", (it,)), cur, lambda v, s2: body(wrap(v), s2), names, ANY, node)
            falls = [o for o in res if o.kind in ("fall", "continue")]
            outs.extend(o for o in res if o.kind not in ("fall", "continue"))
            if not falls and inner:
                return outs
            if not falls:
                return [Outcome("loopbreak" if self.split else "fall", o.state) if o.kind == "break" else o for o in outs]
            if len(falls) == 1:
                cur = falls[0].state
            else:
                cur, _ = self.merge_outcomes(falls, ())
            cur.pc = st.pc if len(cur.pc) > len(st.pc) and cur.pc[: len(st.pc)] == st.pc and not any(p.op == "not" and p.args[0].op == "exists" for p in cur.pc[len(st.pc):]) else cur.pc
        brks = [] if inner else [o for o in outs if o.kind == "break"]
        outs = [o for o in outs if o.kind != "break" or inner]
        if brks and self.split:
            outs += [Outcome("loopbreak", o.state) for o in brks]
        elif brks:
            merged, _ = self.merge_outcomes(brks + [Outcome("fall", cur)], ())
            cur = merged
        outs.append(Outcome("fall", cur))
        return outs

    @staticmethod
    def stored_names(body: list[ast.stmt], st: State) -> set[str]:
        "Variables assigned in a loop, other than collections extended in place."
        inplace: dict[str, int] = {}
        stores: dict[str, int] = {}
        for n in ast.walk(ast.Module(body, [])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stores[n.id] = stores.get(n.id, 0) + 1
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.BitOr)):
                inplace[n.target.id] = inplace.get(n.target.id, 0) + 1
        return {n for n, k in stores.items() if not (inplace.get(n) == k and n in st.env and st.env[n].op == "ref")}

    def run_loop(self, src: T, st: State, body, names: set[str], ety: Ty, node: ast.AST) -> list[Outcome]:
        v = T("bv", (uid(),), ety)
        inner = st.copy()
        entry: dict[str, T] = {}
        for n in names:
            if n in inner.env:
                x = inner.env[n]
                entry[n] = x
                inner.env[n] = T("carried", (uid(), n), x.ty) if x.op != "ref" else T("carried", (uid(), n), x.ty)
        each = T("each", (src, v))
        inner.pc = inner.pc + (each,)
        snapshot = dict(inner.env)
        depth = len(self.frames)
        try:
            outs = body(v, inner)
        except NoReturn as n:
            del self.frames[depth:]
            outs = [Outcome("raise", n.state, T("bottom"), self.loc(node))]
        cont = [o for o in outs if o.kind in ("fall", "continue")]
        brk = [o for o in outs if o.kind == "break"]
        exits = [o for o in outs if o.kind in ("return", "raise")]
        result: list[Outcome] = []
        found: list[T] = []
        if brk and self.split:
            # leaving the loop early is told apart from exhausting it
            parts = []
            for o in brk:
                suffix = o.state.pc[len(st.pc):]
                parts.append(conj(suffix[suffix.index(each) + 1:] if each in suffix else suffix))
            ex = T("exists", (src, v, disj(parts)), BOOL)
            mb, _ = self.merge_outcomes(brk, ())
            early = st.copy()
            for k, h in mb.heap.items():
                old = st.heap.get(k)
                if old is None or h.op != "seq" or old.op != "seq":
                    early.heap[k] = h
                elif h != old:
                    n = lcp(old.args[1], h.args[1])
                    delta = h.args[1][n:] if n == len(old.args[1]) else h.args[1]
                    early.heap[k] = T("seq", (h.args[0], old.args[1] + (T("for", (src, v, delta, "break", disj(parts))),)), old.ty)
            for n in names:
                x = mb.env.get(n)
                if x is not None:
                    early.env[n] = entry[n] if n in entry and x == snapshot[n] else x if x.op == "ref" else T("found", (src, v, disj(parts), self.freeze(x, mb)), x.ty)
            early.attrs.update(mb.attrs)
            early.pc = st.pc + (ex,)
            result.append(Outcome("loopbreak", early))
            found.append(neg(ex))
            brk = []
        after = st.copy()
        finals = cont + brk
        if finals:
            m, _ = self.merge_outcomes(finals, ())
            for k, h in m.heap.items():
                old = st.heap.get(k)
                if old is None:
                    after.heap[k] = h
                    continue
                if h is old or h == old:
                    continue
                if h.op == "seq" and old.op == "seq" and h.args[0] == old.args[0]:
                    n = lcp(old.args[1], h.args[1])
                    if n == len(old.args[1]):
                        delta = h.args[1][n:]
                        args: tuple = (src, v, delta)
                        if brk:
                            args = args + ("break", disj([conj(s[s.index(each) + 1:] if each in s else s) for s in (o.state.pc[len(st.pc):] for o in brk)]))
                        after.heap[k] = T("seq", (h.args[0], old.args[1] + (T("for", args),)), old.ty)
                        continue
                after.heap[k] = T("seq", (old.args[0] if old.op == "seq" else "list", (T("splice", (T("loopstate", (src, old, h)),)),)), old.ty)
            for n in names:
                x = m.env.get(n)
                if x is None:
                    continue
                if n in entry:
                    if x == snapshot[n]:
                        after.env[n] = entry[n]
                    else:
                        init, last = self.freeze(entry[n], st), self.freeze(x, m)
                        flag = flagged(src, v, snapshot[n], init, last)
                        ends_at: tuple = ()
                        if brk:  # the condition on which the loop is left
                            ends_at = (disj([conj(s[s.index(each) + 1:] if each in s else s) for s in (o.state.pc[len(st.pc):] for o in brk)]),)
                        after.env[n] = flag if flag is not None else T("loopout", (src, v, snapshot[n], init, last) + ends_at, union([entry[n].ty, x.ty]))
                else:
                    after.env[n] = x if x.op == "ref" else T("lastof", (src, v, self.freeze(x, m)), x.ty)
            for k, x in m.attrs.items():
                if after.attrs.get(k) != x:
                    after.attrs[k] = T("loopout", (src, v, x), x.ty)
        negs: list[T] = list(found)
        stop: Optional[T] = None
        if brk and exits:  # an element at which the loop is left hides those behind it
            stop = disj([conj(s[s.index(each) + 1:] if each in s else s) for s in (o.state.pc[len(st.pc):] for o in brk)])
        for o in exits:
            suffix = o.state.pc[len(st.pc):]
            i = suffix.index(each) if each in suffix else 0
            cond = conj(suffix[i + 1:])
            ends = cond if stop is None or o.kind != "return" else disj([cond, stop])
            ex = T("exists", (src, v, cond), BOOL)
            if ends is not cond:
                first = T("found", (src, v, ends, v), v.ty)
                ex = conj([T("exists", (src, v, ends), BOOL), rewrite(cond, lambda x: first if x == v else None)])
            o.state.pc = st.pc + (ex,)
            if o.kind == "return" and o.value is not None and o.value.op != "ref" and any(x == v for x in walk(o.value)):
                o = Outcome(o.kind, o.state, T("found", (src, v, ends, o.value), o.value.ty), o.loc)
            result.append(o)
            negs.append(neg(ex))
        if not (exits and not finals and False):
            after.pc = st.pc + tuple(n for n in negs if not is_const(n))
            result.append(Outcome("fall", after))
        return result

    def proj(self, x: T, i: int) -> T:
        if x.op == "tup" and i < len(x.args):
            return x.args[i]
        t = strip_none(x.ty)
        ty = ANY
        if t.kind == "ext" and t.ref == "tuple" and i < len(t.args):
            ty = t.args[i]
        elif t.kind == "ext" and t.ref == "list" and t.args:
            ty = t.args[0]
        return T("proj", (x, i), ty)

    # -- assignment -----------------------------------------------------------------------------------------------

    def assign(self, target: ast.AST, v: T, st: State) -> None:
        if isinstance(target, ast.Name):
            st.env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            src = self.view(v, st)
            if src.op == "seq" and all(i.op == "item" for i in src.args[1]) and len(src.args[1]) == len(target.elts):
                src = T("tup", tuple(i.args[0] for i in src.args[1]))
            for i, e in enumerate(target.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, T("rest", (self.freeze(src, st), i)), st)
                else:
                    self.assign(e, self.proj(src, i), st)
        elif isinstance(target, ast.Attribute):
            b = self.ev(target.value, st)
            fb = self.freeze(b, st)
            if v.op == "ref" and v.ty.kind == "any":
                pass
            st.attrs[(fb, target.attr)] = v
            self.emit(st, T("setattr", (fb, target.attr, self.freeze(v, st)), loc=self.loc(target)))
        elif isinstance(target, ast.Subscript):
            b = self.ev(target.value, st)
            i = self.ev(target.slice, st)
            if b.op == "ref":
                self.append_item(st, b, T("kv", (self.freeze(i, st), self.freeze(v, st)), loc=self.loc(target)))
            else:
                self.emit(st, T("setitem", (self.freeze(b, st), self.freeze(i, st), self.freeze(v, st)), loc=self.loc(target)))

    # -- expressions ----------------------------------------------------------------------------------------------

    def cond(self, e: ast.expr, st: State) -> T:
        return self.known(self.truth(self.ev(e, st), st), st)

    def truth(self, t: T, st: State) -> T:
        if t.op == "const":
            return const(bool(t.args[0]))
        if t.op in ("closure", "lambda", "class", "func", "extern"):
            return TRUE
        if t.op == "tmpl":
            return TRUE if any(isinstance(p, str) for p in t.args) else t
        if t.op == "ref":
            h = st.heap.get(t.args[0])
            if h is not None and h.op == "seq":
                return self.truth_seq(h)
            return self.freeze(t, st)
        if t.op == "seq":
            return self.truth_seq(t)
        if t.op == "tup":
            return const(bool(t.args))
        if t.op == "cmp" and t.args[0] in (">", "!=") and t.args[1].op == "len" and is_const(t.args[2], 0):
            return self.truth(t.args[1].args[0], st)
        if t.op == "cmp" and t.args[0] == ">=" and t.args[1].op == "len" and is_const(t.args[2], 1):
            return self.truth(t.args[1].args[0], st)
        if t.op == "cmp" and t.args[0] == "==" and t.args[1].op == "len" and is_const(t.args[2], 0):
            return neg(self.truth(t.args[1].args[0], st))
        if t.op == "not":
            return neg(self.truth(t.args[0], st))
        if t.op == "len":
            return self.truth(t.args[0], st)
        if t.op == "phi":
            a, b = self.truth(t.args[1], st), self.truth(t.args[2], st)
            c = self.freeze(t.args[0], st)
            a = TRUE if a == c else FALSE if a == neg(c) else a
            b = FALSE if b == c else TRUE if b == neg(c) else b
            if is_const(a) or is_const(b):
                if is_const(a) and is_const(b):
                    return phi(t.args[0], a.with_ty(BOOL), b.with_ty(BOOL))
                if is_const(a):
                    return disj([c, b]) if a.args[0] else conj([neg(c), b])
                return disj([neg(c), a]) if b.args[0] else conj([c, a])
        if t.op == "call" and t.args[0] == "bool" and len(t.args[2]) == 1:
            return self.truth(t.args[2][0][1], st)
        return t

    @staticmethod
    def truth_seq(h: T) -> T:
        items = h.args[1]
        if any(i.op in ("item", "kv") for i in items):
            return TRUE
        if not items:
            return FALSE
        if len(items) == 1 and items[0].op == "splice" and items[0].args[0].op not in ("seq", "reversed", "sorted", "phi", "zip", "enumerate"):
            return items[0].args[0]
        return T("seq", h.args, h.ty)

    def ev(self, e: ast.expr, st: State) -> T:
        t = self._ev(e, st)
        if t.loc is None and t.op not in ("const", "param", "bv", "ref"):
            t.loc = self.loc(e)
        if t in st.narrow:
            nt = st.narrow[t]
            if nt.kind != "any" and nt != t.ty:
                t = t.with_ty(nt)
        return t

    def _ev(self, e: ast.expr, st: State) -> T:
        if isinstance(e, ast.Constant):
            return const(e.value) if not isinstance(e.value, (bytes,)) else T("const", (e.value,), BYTES)
        if isinstance(e, ast.Name):
            return self.lookup(e.id, st)
        if isinstance(e, ast.Await):
            return self.ev(e.value, st)
        if isinstance(e, ast.JoinedStr):
            parts: list[object] = []
            for p in e.values:
                if isinstance(p, ast.Constant):
                    parts.append(p.value)
                else:
                    assert isinstance(p, ast.FormattedValue)
                    v = self.freeze(self.ev(p.value, st), st)
                    if p.format_spec is not None or p.conversion not in (-1, 115):
                        spec = self.freeze(self.ev(p.format_spec, st), st) if p.format_spec is not None else NONE_T
                        parts.append(T("fmt", (v, spec, p.conversion), STR, self.loc(p)))
                    else:
                        parts.append(self.located(v, p))
            return self.mk_tmpl(parts, self.loc(e))
        if isinstance(e, ast.FormattedValue):
            return self.ev(e.value, st)
        if isinstance(e, ast.Attribute):
            return self.ev_attr(e, st)
        if isinstance(e, ast.Call):
            return self.ev_call(e, st)
        if isinstance(e, ast.BinOp):
            a = self.ev(e.left, st)
            b = self.ev(e.right, st)
            return self.binop(e.op, a, b, st, e)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, st)
            if isinstance(e.op, ast.Not):
                return neg(self.known(self.truth(v, st), st))
            if isinstance(e.op, ast.USub) and v.op == "const" and isinstance(v.args[0], (int, float)):
                return const(-v.args[0])
            return T("unop", (type(e.op).__name__, self.freeze(v, st)), v.ty)
        if isinstance(e, ast.BoolOp):
            return self.boolop(e.op, e.values, st)
        if isinstance(e, ast.Compare):
            return self.compare(e, st)
        if isinstance(e, ast.IfExp):
            c = self.cond(e.test, st)
            if is_const(c):
                return self.ev(e.body if c.args[0] else e.orelse, st)
            sa, sb = st.copy(), st.copy()
            self.assume(sa, c, True)
            self.assume(sb, c, False)
            pc = st.pc
            try:
                a = self.ev(e.body, sa)
            except NoReturn as n:
                b = self.ev(e.orelse, sb)
                sb.heap[0] = T("seq", ("trace", merge_items(c, n.state.heap[0].args[1], sb.heap[0].args[1])))
                st.become(sb)
                return b
            try:
                b = self.ev(e.orelse, sb)
            except NoReturn as n:
                sa.heap[0] = T("seq", ("trace", merge_items(c, sa.heap[0].args[1], n.state.heap[0].args[1])))
                st.become(sa)
                return a
            r = self.phi_val(c, a, b, sa, sb)
            st.become(self.merge(c, sa, sb))
            st.pc = pc
            return r
        if isinstance(e, (ast.List, ast.Set, ast.Tuple)):
            vals: list[T] = []
            star = False
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    star = True
                    vals.append(T("star", (self.ev(x.value, st),)))
                else:
                    vals.append(self.ev(x, st))
            if isinstance(e, ast.Tuple) and not star:
                return T("tup", tuple(self.freeze(v, st) for v in vals), Ty("ext", "tuple", tuple(v.ty for v in vals)))
            kind = "set" if isinstance(e, ast.Set) else "list"
            ety = union([v.ty if v.op != "star" else self.tr.elem(self.freeze(v.args[0], st).ty) for v in vals]) if vals else ANY
            ref = self.new_ref(st, kind, (), Ty("ext", kind, (ety,)) if vals else Ty("ext", kind))
            for v in vals:
                if v.op == "star":
                    self.extend(st, ref, v.args[0], e)
                else:
                    self.append_item(st, ref, T("item", (self.freeze(v, st),), loc=v.loc))
            return ref
        if isinstance(e, ast.Dict):
            ref = self.new_ref(st, "dict", (), Ty("ext", "dict"))
            for k, x in zip(e.keys, e.values):
                if k is None:
                    self.append_item(st, ref, T("splice", (self.freeze(self.ev(x, st), st),)))
                else:
                    kt = self.freeze(self.ev(k, st), st)
                    vt = self.freeze(self.ev(x, st), st)
                    self.append_item(st, ref, T("kv", (kt, vt), loc=self.loc(x)))
            return ref
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            kind = "set" if isinstance(e, ast.SetComp) else "list"
            return self.comprehension(e.generators, st, kind, lambda s: T("item", (self.freeze(self.ev(e.elt, s), s),), loc=self.loc(e.elt)), e)
        if isinstance(e, ast.DictComp):
            return self.comprehension(e.generators, st, "dict", lambda s: T("kv", (self.freeze(self.ev(e.key, s), s), self.freeze(self.ev(e.value, s), s)), loc=self.loc(e.value)), e)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, st)
            if isinstance(e.slice, ast.Slice):
                lo = self.freeze(self.ev(e.slice.lower, st), st) if e.slice.lower else NONE_T
                hi = self.freeze(self.ev(e.slice.upper, st), st) if e.slice.upper else NONE_T
                step = self.freeze(self.ev(e.slice.step, st), st) if e.slice.step else NONE_T
                if is_const(step, -1) and is_const(lo, None) and is_const(hi, None):
                    return T("reversed", (self.freeze(b, st),), b.ty)
                return T("slice", (self.freeze(b, st), lo, hi, step), b.ty)
            i = self.ev(e.slice, st)
            return self.subscript(b, i, st)
        if isinstance(e, ast.Lambda):
            return self.closure(e, "<lambda>", self.frame.func.cls, Ty("ext", "callable"), st)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, st)
            self.assign(e.target, v, st)
            return v
        if isinstance(e, ast.Starred):
            return T("star", (self.ev(e.value, st),))
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            if isinstance(e, ast.Yield):
                v = self.ev(e.value, st) if e.value is not None else NONE_T
                self.append_item(st, T("ref", (self.frame.yields,)), T("item", (self.freeze(v, st),), loc=self.loc(e), meta=v))
                self.emit(st, T("yield", (self.freeze(v, st),), loc=self.loc(e)))
            else:
                v = self.ev(e.value, st)
                self.extend(st, T("ref", (self.frame.yields,)), v, e)
            return NONE_T
        if isinstance(e, ast.Slice):
            return T("sliceobj")
        raise AnalysisError(f"{self.loc(e)}: unsupported expression {type(e).__name__}")

    def located(self, v: T, node: ast.AST) -> T:
        if v.loc is None or v.op in ("param", "bv", "attr"):
            v = T(v.op, v.args, v.ty, self.loc(node), v.pc, v.meta)
        return v

    def mk_tmpl(self, parts: Iterable[object], loc: Optional[str] = None) -> T:
        # distribute a template over conditional string pieces lazily: keep the phi as a part
        t = tmpl(parts, loc)
        if t.op == "tmpl" and len(t.args) == 1 and isinstance(t.args[0], T) and (t.args[0].ty == STR or t.args[0].op in ("strop", "join")):
            return t.args[0]
        return t

    def comprehension(self, gens: list[ast.comprehension], st: State, kind: str, item: Callable[[State], T], node: ast.AST) -> T:
        ref = self.new_ref(st, kind, (), Ty("ext", kind))
        targets = {n.id for g in gens for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        saved = {n: st.env.get(n) for n in targets}
        ety: list[Ty] = []

        def level(i: int, s: State) -> list[Outcome]:
            if i == len(gens):
                it = item(s)
                ety.append(it.args[-1].ty)
                self.append_item(s, ref, it)
                return [Outcome("fall", s)]
            g = gens[i]
            src = self.ev(g.iter, s)

            def body(x: T, bst: State) -> list[Outcome]:
                self.assign(g.target, x, bst)
                return self.filters(g.ifs, bst, lambda s2: level(i + 1, s2))

            return self.iterate(src, s, body, set(), node)

        outs = level(0, st.copy())
        falls = [o for o in outs if o.kind == "fall"]
        pc = st.pc
        m, _ = self.merge_outcomes(falls, ())
        st.become(m)
        st.pc = pc
        for n, v in saved.items():
            if v is None:
                st.env.pop(n, None)
            else:
                st.env[n] = v
        h = st.heap[ref.args[0]]
        t = union(ety) if ety else ANY
        return T("ref", ref.args, Ty("ext", kind, (t,) if kind != "dict" else (ANY, t)))

    def filters(self, ifs: list[ast.expr], st: State, k: Callable[[State], list[Outcome]]) -> list[Outcome]:
        if not ifs:
            return k(st)
        c = self.cond(ifs[0], st)
        if is_const(c, True):
            return self.filters(ifs[1:], st, k)
        if is_const(c, False):
            return [Outcome("fall", st)]
        sa, sb = st.copy(), st.copy()
        self.assume(sa, c, True)
        oa = self.filters(ifs[1:], sa, k)
        fa = [o for o in oa if o.kind == "fall"]
        m, _ = self.merge_outcomes(fa, ())
        m = self.merge(c, m, sb)
        m.pc = st.pc
        return [Outcome("fall", m)]

    def boolop(self, op: ast.boolop, values: list[ast.expr], st: State) -> T:
        a = self.ev(values[0], st)
        if len(values) == 1:
            return a
        c = self.known(self.truth(a, st), st)
        is_and = isinstance(op, ast.And)
        if is_const(c):
            if bool(c.args[0]) == is_and:
                return self.boolop(op, values[1:], st)
            return a
        sa, sb = st.copy(), st.copy()
        self.assume(sa, c, is_and)
        b = self.boolop(op, values[1:], sa)
        pc = st.pc
        self.assume(sb, c, not is_and)
        m = self.merge(c if is_and else neg(c), sa, sb)
        a_f, b_f = self.freeze(a, st), self.freeze(b, sa)
        st.become(m)
        st.pc = pc
        boolish = lambda t: t.ty == BOOL or t.op in ("not", "and", "or", "cmp", "isnone", "in", "isinstance", "exists") or is_const(t, True) or is_const(t, False)
        if boolish(a_f) or boolish(b_f) and False:
            tb = self.truth(b_f, st)
            if boolish(b_f):
                return conj([c, tb]) if is_and else disj([c, tb])
            return (conj([c, tb]) if is_and else disj([c, tb])).with_ty(ANY) if is_and else T("phi", (c, a_f, b_f), union([a_f.ty, b_f.ty]))
        if is_and:
            # value used as a condition: truth(a) and truth(b)
            if boolish(b_f):
                return conj([c, b_f])
            return phi(c, b_f, a_f)
        if b_f.op == "const" and b_f.args[0] is None:
            return T("ornone", (a_f,), union([strip_none(a_f.ty), NONE])) if a_f.op != "phi" or True else a_f
        return T("phi", (c, a_f, b_f), union([strip_none(a_f.ty), b_f.ty]))

    def compare(self, e: ast.Compare, st: State) -> T:
        left = self.ev(e.left, st)
        parts: list[T] = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            parts.append(self.cmp(op, left, right, st))
            left = right
        return self.known(conj(parts), st)

    def cmp(self, op: ast.cmpop, a: T, b: T, st: State) -> T:
        a = self.freeze(a, st)
        b = self.freeze(b, st)
        name = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
                ast.Is: "is", ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}[type(op)]
        if name in ("is", "isnot", "==", "!="):
            if is_const(a, None):
                a, b = b, a
            if is_const(b, None):
                r = self.is_none(a)
                return r if name in ("is", "==") else neg(r)
        if name in ("is", "==") or name in ("isnot", "!="):
            pos = name in ("is", "==")
            if a.op in ("class", "func", "extern") and b.op in ("class", "func", "extern"):
                return const((a == b) == pos)
            if a.op == "enum" and b.op == "enum":
                return const((a == b) == pos)
            if a.op == "const" and b.op == "const":
                return const((a.args[0] == b.args[0]) == pos)
            if b == FALSE or b == TRUE:
                r = a if b == TRUE else neg(a)
                if a.ty == BOOL:
                    return r if pos else neg(r)
            if a.op == "phi" and (b.op in ("const", "enum")):
                r = phi(a.args[0], self.cmp(ast.Eq(), a.args[1], b, st), self.cmp(ast.Eq(), a.args[2], b, st))
                return r if pos else neg(r)
            x, y = (a, b) if repr_key(a) <= repr_key(b) else (b, a)
            r = T("cmp", ("==", x, y), BOOL)
            if a == b and a.op in ("param", "attr"):
                r = TRUE
            r = self.norm_len(r, st)
            return r if pos else neg(r)
        if name in ("in", "notin"):
            r = T("in", (a, b), BOOL)
            if b.op in ("seq", "tup"):
                items = b.args if b.op == "tup" else b.args[1]
                vals = [i if b.op == "tup" else i.args[0] for i in items if b.op == "tup" or i.op == "item"]
                if len(vals) == len(items):
                    r = disj(self.cmp(ast.Eq(), a, v, st) for v in vals)
            return r if name == "in" else neg(r)
        if a.op == "const" and b.op == "const":
            try:
                x, y = a.args[0], b.args[0]
                return const({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[name])
            except TypeError:
                pass
        if name == "<":
            a, b, name = b, a, ">"
        elif name == "<=":
            a, b, name = b, a, ">="
        return self.norm_len(T("cmp", (name, a, b), BOOL), st)

    def norm_len(self, c: T, st: State) -> T:
        op, a, b = c.args
        if op == "==" and a.op != "len" and b.op == "len":
            a, b = b, a
        if a.op == "len" and is_const(b):
            n = b.args[0]
            if op == "==" and n == 0:
                return neg(self.truth(a.args[0], st))
            if (op == ">" and n == 0) or (op == ">=" and n == 1):
                return self.truth(a.args[0], st)
        if op == ">=" and is_const(a, 0) and b.op == "len":
            return neg(self.truth(b.args[0], st))
        if op == ">" and is_const(a, 1) and b.op == "len":
            return neg(self.truth(b.args[0], st))
        return c

    def is_none(self, a: T) -> T:
        if a.op == "const":
            return const(a.args[0] is None)
        if a.op in ("tmpl", "seq", "tup", "new", "closure", "class", "func", "enum", "join", "strop", "pos", "fmt", "len"):
            return FALSE
        if a.op == "param" and a.args[0] == "self":
            return FALSE
        if a.op == "ornone":
            return neg(a.args[0])
        if a.op == "phi":
            return phi(a.args[0], self.is_none(a.args[1]), self.is_none(a.args[2]))
        if a.ty.kind in ("cls",) and a.op in ("call",) and a.args[0] != "cast":
            return FALSE
        if a.ty == STR and a.op == "call":
            return FALSE
        return T("isnone", (a,), BOOL)

    def binop(self, op: ast.operator, a: T, b: T, st: State, node: ast.AST) -> T:
        fa, fb = self.freeze(a, st), self.freeze(b, st)
        if isinstance(op, ast.Add):
            strish = lambda t: t.ty == STR or t.op in ("tmpl", "join") or (t.op == "const" and isinstance(t.args[0], str))
            if strish(fa) or strish(fb):
                return self.mk_tmpl([fa, fb], self.loc(node))
            seqish = lambda t: t.op in ("seq", "tup") or (strip_none(t.ty).kind == "ext" and strip_none(t.ty).ref in ("list", "tuple"))
            if seqish(fa) or seqish(fb):
                ref = self.new_ref(st, "list", (), a.ty)
                self.extend(st, ref, a, node)
                self.extend(st, ref, b, node)
                return ref
            if fa.op == "const" and fb.op == "const":
                try:
                    return const(fa.args[0] + fb.args[0])
                except TypeError:
                    pass
            for x, k in ((fa, fb), (fb, fa)):
                if x.op == "pos" and k.op == "const" and isinstance(k.args[0], int) and isinstance(x.args[1], T) and x.args[1].op == "const":
                    return T("pos", (x.args[0], const(x.args[1].args[0] + k.args[0])), INT)
        if isinstance(op, ast.Mult):
            for x, k in ((self.view(a, st), fb), (self.view(b, st), fa)):
                if x.op == "seq" and x.args[0] in ("list", "tuple") and k.op == "len":
                    return self.map_over(k.args[0], lambda _, s, x=x: x.args[1][0].args[0], st, node) if len(x.args[1]) == 1 and x.args[1][0].op == "item" else T("binop", (type(op).__name__, fa, fb), fa.ty, self.loc(node))
        if isinstance(op, ast.Mod) and (fa.op == "const" and isinstance(fa.args[0], str)):
            args = list(fb.args) if fb.op == "tup" else [fb]
            pieces = fa.args[0].split("%s")
            if len(pieces) == len(args) + 1 and "%" not in "".join(pieces):
                parts: list[object] = []
                for i, p in enumerate(pieces):
                    parts.append(p)
                    if i < len(args):
                        parts.append(args[i])
                return self.mk_tmpl(parts, self.loc(node))
        if isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd)) and "set" in (fa.args[0] if fa.op == "seq" else "", fa.ty.ref):
            return T("setop", (type(op).__name__, fa, fb), fa.ty)
        ty = fa.ty if fa.ty == fb.ty else ANY
        return T("binop", (type(op).__name__, fa, fb), ty, self.loc(node))

    def subscript(self, b: T, i: T, st: State) -> T:
        v = self.view(b, st)
        if i.op == "const" and isinstance(i.args[0], int) and not isinstance(i.args[0], bool):
            n = i.args[0]
            if v.op == "tup" and -len(v.args) <= n < len(v.args):
                return v.args[n]
            if v.op == "seq" and all(x.op == "item" for x in v.args[1]) and -len(v.args[1]) <= n < len(v.args[1]):
                return v.args[1][n].args[0]
        if v.op == "seq" and v.args[0] == "dict" and i.op in ("const", "enum"):
            for it in reversed(v.args[1]):
                if it.op == "kv" and it.args[0] == i:
                    return it.args[1]
                if it.op != "kv" or it.args[0].op not in ("const", "enum"):
                    break
        fb, fi = self.freeze(b if b.op == "ref" else v, st), self.freeze(i, st)
        ty = ANY
        t = strip_none(fb.ty)
        if t.kind == "ext" and t.ref in ("list",) and t.args:
            ty = t.args[0]
        elif t.kind == "ext" and t.ref == "dict" and len(t.args) == 2:
            ty = t.args[1]
        elif t.kind == "ext" and t.ref == "tuple" and i.op == "const" and isinstance(i.args[0], int) and i.args[0] < len(t.args):
            ty = t.args[i.args[0]]
        elif t.kind == "ext" and t.ref == "str":
            ty = STR
        elif t.kind == "cls":
            g = t.ref.find_method("__getitem__")  # type: ignore
            if g is not None:
                ty = self.tr.ret(g, t)
        if fi.op == "pos" and fb == fi.args[0] and is_const(fi.args[1], 0) and fb in self.current:
            return self.current[fb]
        return T("sub", (fb, fi), ty)

    def lookup(self, name: str, st: State) -> T:
        if name in st.env:
            return st.env[name]
        return self.from_entity(self.prog.resolve_name(self.frame.func.module, name))

    def from_entity(self, r: object) -> T:
        if isinstance(r, ClassInfo):
            return T("class", (r,), Ty("type", None, (Ty("cls", r),)))
        if isinstance(r, FuncInfo):
            return T("func", (r,))
        if isinstance(r, Module):
            return T("module", (r,), Ty("module", r))
        if isinstance(r, tuple) and r[0] == "var":
            m, n = r[1], r[2]
            val = m.variables.get(n)
            if isinstance(val, ast.Constant) and not isinstance(val.value, bytes):
                return const(val.value)
            if isinstance(val, (ast.Name, ast.Attribute)):
                rr = self.prog.resolve_expr(m, val)
                if isinstance(rr, (ClassInfo, FuncInfo)):
                    return self.from_entity(rr)
            ann = m.var_annots.get(n)
            ty = self.tr.annot(m, ann) if ann is not None else self.static_type(m, val)
            return T("global", (f"{m.name}.{n}",), ty)
        if isinstance(r, tuple) and r[0] == "classattr":
            return self.class_attr(r[1], r[2])
        if isinstance(r, str):
            return T("extern", (r,))
        return T("unknown", (repr(r),))

    def static_type(self, m: Module, val: Optional[ast.expr]) -> Ty:
        if isinstance(val, ast.Call):
            r = self.prog.resolve_expr(m, val.func)
            if isinstance(r, ClassInfo):
                return Ty("cls", r)
            if isinstance(r, FuncInfo):
                return self.tr.ret(r)
            if isinstance(r, str):
                return Ty("ext", r)
        return ANY

    def class_attr(self, c: ClassInfo, name: str) -> T:
        if c.is_subclass_of("Enum") or c.is_subclass_of("enum.Enum"):
            for k in c.project_mro():
                if name in k.values:
                    return T("enum", (c, name), Ty("cls", c))
        for k in c.project_mro():
            if name in k.methods:
                return T("func", (k.methods[name],))
            if name in k.values:
                v = k.values[name]
                if isinstance(v, ast.Constant):
                    return const(v.value)
                break
        return T("attr", (T("class", (c,)), name))

    # -- attributes -----------------------------------------------------------------------------------------------

    def ev_attr(self, e: ast.Attribute, st: State) -> T:
        b = self.ev(e.value, st)
        return self.attr(b, e.attr, st, e)

    def attr(self, b: T, name: str, st: State, node: ast.AST) -> T:
        if b.op == "extern":
            return T("extern", (f"{b.args[0]}.{name}",))
        if b.op == "module":
            return self.from_entity(self.prog.resolve_dotted(f"{b.args[0].name}.{name}"))
        if b.op == "class":
            return self.class_attr(b.args[0], name)
        fb = self.freeze(b, st) if b.op == "ref" else b
        if (fb, name) in st.attrs:
            return st.attrs[(fb, name)]
        if (ANY_OBJECT, name) in st.attrs:
            by = st.attrs.pop((ANY_OBJECT, name))
            plain = self.attr(b, name, st, node)
            st.attrs[(ANY_OBJECT, name)] = by
            return T("written", (fb, name, by), plain.ty, self.loc(node))
        if b.op == "new":
            c: ClassInfo = b.args[0]
            d = dict(b.args[1])
            f0 = self.find_attr_method(b, c, name)
            if f0 is None and name in d and (c.is_dataclass):
                return d[name]
        if b.op == "phi" and (b.args[1].op == "new" or b.args[2].op == "new"):
            return self.phi_val(b.args[0], self.attr(b.args[1], name, st, node), self.attr(b.args[2], name, st, node), st, st)
        t = strip_none(self.ty_of(b, st))
        for alt in alts(t):
            if alt.kind == "typevar" and alt.args:
                alt = alt.args[0]
            if alt.kind == "cls":
                c = alt.ref  # type: ignore
                f = self.find_attr_method(b, c, name)
                if f is not None:
                    if f.is_property:
                        cands = self.candidates(b, c, name)
                        if len(cands) == 1 and self.inline(cands[0], b) and self.can_inline(cands[0]):
                            return self.call_inline(cands[0], {self.param_names(cands[0])[0]: b}, st, c, node)
                        return T("attr", (fb, name), self.tr.ret(f, alt), self.loc(node))
                    return T("method", (fb, name, f), ANY, self.loc(node))
                an = c.find_annot(name)
                if an is not None:
                    ty = self.tr.subst(self.tr.annot(an[1], an[0]), alt)
                    return T("attr", (fb, name), ty, self.loc(node))
                self_ty = self.infer_attr(c, name)
                return T("attr", (fb, name), self_ty, self.loc(node))
            if alt.kind == "type" and alt.args and alt.args[0].kind == "cls" and b.op != "class":
                if name not in ("__name__", "__module__"):
                    cc: ClassInfo = alt.args[0].ref  # type: ignore
                    m = cc.find_method(name)
                    if m is not None:
                        return T("method", (fb, name, m), ANY)
        ty = ANY
        if name in ("__name__", "__module__", "__qualname__"):
            ty = STR
        return T("attr", (fb, name), ty, self.loc(node))

    def infer_attr(self, c: ClassInfo, name: str) -> Ty:
        for k in c.project_mro():
            init = k.methods.get("__init__")
            if init is None:
                continue
            for n in ast.walk(init.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == name:
                    if isinstance(n.value, ast.Name):
                        return self.param_type(init, n.value.id)
                    if isinstance(n.value, ast.Call):
                        r = self.prog.resolve_expr(init.module, n.value.func)
                        if isinstance(r, ClassInfo):
                            return Ty("cls", r)
        return ANY

    def ty_of(self, t: T, st: State) -> Ty:
        if t in st.narrow and st.narrow[t].kind != "any":
            return st.narrow[t]
        return t.ty

    def find_attr_method(self, b: T, c: ClassInfo, name: str) -> Optional[FuncInfo]:
        exact = self.exact.get(b)
        if exact is not None:
            c = exact
        return c.find_method(name)

    def candidates(self, recv: T, c: ClassInfo, name: str) -> list[FuncInfo]:
        exact = self.exact.get(recv)
        if recv.op == "new":
            exact = recv.args[0]
        if exact is not None:
            f = exact.find_method(name)
            return [f] if f is not None else []
        out: list[FuncInfo] = []
        f = c.find_method(name)
        if f is not None:
            out.append(f)
        for s in c.all_subclasses():
            if name in s.methods and s.methods[name] not in out:
                out.append(s.methods[name])
        return [f for f in out if not f.is_abstract] or out

    def can_inline(self, f: FuncInfo) -> bool:
        return len(self.frames) < self.max_depth and sum(1 for fr in self.frames if fr.func is f or fr.func.node is f.node) < 2

    # -- calls ----------------------------------------------------------------------------------------------------

    def ev_call(self, e: ast.Call, st: State) -> T:
        fn = e.func
        # super().method(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
            return self.call_super(fn.attr, e, st)
        if isinstance(fn, ast.Attribute):
            recv = self.ev(fn.value, st)
            pos, kw = self.ev_args(e, st)
            return self.call_method(recv, fn.attr, pos, kw, st, e)
        callee = self.ev(fn, st)
        pos, kw = self.ev_args(e, st)
        return self.call_value(callee, pos, kw, st, e)

    def ev_args(self, e: ast.Call, st: State) -> tuple[list[T], dict[str, T]]:
        pos = []
        for a in e.args:
            v = self.ev(a, st)
            if v.op == "star":
                s = self.view(v.args[0], st)
                if s.op == "seq" and all(i.op == "item" for i in s.args[1]):
                    pos.extend(i.args[0] for i in s.args[1])
                    continue
                if s.op == "tup":
                    pos.extend(s.args)
                    continue
            pos.append(v)
        kw: dict[str, T] = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                d = self.view(v, st)
                if d.op == "seq" and d.args[0] == "dict" and all(i.op == "kv" and i.args[0].op == "const" for i in d.args[1]):
                    for i in d.args[1]:
                        kw[i.args[0].args[0]] = i.args[1]
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return pos, kw

    def call_super(self, name: str, e: ast.Call, st: State) -> T:
        fr = self.frame
        self_cls = fr.self_cls or fr.func.cls
        owner = fr.func.cls
        pos, kw = self.ev_args(e, st)
        selfname = self.param_names(fr.func)[0] if self.param_names(fr.func) else "self"
        recv = st.env.get(selfname, T("param", ("self",)))
        if self_cls is not None and owner is not None:
            f = self_cls.find_method(name, after=owner)
            if f is not None:
                return self.call_func(f, recv, pos, kw, st, e, self_cls, exact=True, super_=True)
        if recv.op == "ref" and name in ("append", "extend", "add", "update"):
            return self.call_builtin_method(recv, name, pos, kw, st, e)
        if name == "__init__":
            return NONE_T
        t = T("call", (f"super.{name}", self.freeze(recv, st), self.fz_args(pos, kw, st)), ANY, self.loc(e))
        self.emit(st, t)
        return t

    def fz_args(self, pos: list[T], kw: dict[str, T], st: State) -> tuple:
        return tuple((str(i), self.freeze(v, st)) for i, v in enumerate(pos)) + tuple((k, self.freeze(v, st)) for k, v in sorted(kw.items()))

    def call_method(self, recv: T, name: str, pos: list[T], kw: dict[str, T], st: State, e: ast.AST) -> T:
        if recv.op == "extern":
            return self.call_value(T("extern", (f"{recv.args[0]}.{name}",)), pos, kw, st, e)
        if recv.op == "module":
            return self.call_value(self.attr(recv, name, st, e), pos, kw, st, e)
        if recv.op == "class":
            c: ClassInfo = recv.args[0]
            f = c.find_method(name)
            if f is not None:
                if f.is_classmethod:
                    return self.call_func(f, recv, pos, kw, st, e, c, exact=True)
                return self.call_func(f, None, pos, kw, st, e, c, exact=True, unbound=True)
            if name == "__init__":
                return NONE_T
            ca = self.class_attr(c, name)
            return self.call_value(ca, pos, kw, st, e)
        if recv.op == "ref":
            t0 = recv.ty
            if t0.kind == "cls":
                f = t0.ref.find_method(name)  # type: ignore
                if f is not None:
                    return self.call_func(f, recv, pos, kw, st, e, t0.ref, exact=True)  # type: ignore
            r = self.call_builtin_method(recv, name, pos, kw, st, e)
            return r
        fb = self.freeze(recv, st)
        if (fb, name) in st.attrs:
            return self.call_value(st.attrs[(fb, name)], pos, kw, st, e)
        if recv.op == "phi" and not alts(strip_none(recv.ty))[0].kind == "cls":
            pass
        t = strip_none(self.ty_of(recv, st))
        results: list[T] = []
        for alt in alts(t):
            if alt.kind == "typevar" and alt.args:
                alt = alt.args[0]
            if alt.kind == "cls":
                c = alt.ref  # type: ignore
                f = self.find_attr_method(recv, c, name)
                if f is None:
                    # attribute holding a callable
                    continue
                if f.is_property:
                    v = self.attr(recv, name, st, e)
                    return self.call_value(v, pos, kw, st, e)
                cands = self.candidates(recv, c, name)
                target = cands[0] if len(cands) == 1 else f
                return self.call_func(target, recv, pos, kw, st, e, self.exact.get(recv, c), exact=len(cands) == 1, alt=alt)
        return self.call_builtin_method(recv, name, pos, kw, st, e)

    def root_name(self, f: FuncInfo) -> str:
        if f.cls is not None and f.parent is None:
            root = f.cls
            for c in f.cls.project_mro():
                if f.name in c.methods:
                    root = c
            return f"{root.name}.{f.name}"
        return f.short if f.cls is None else f.qualname

    def call_func(self, f: FuncInfo, recv: Optional[T], pos: list[T], kw: dict[str, T], st: State, e: ast.AST,
                  self_cls: Optional[ClassInfo] = None, exact: bool = True, super_: bool = False, unbound: bool = False, alt: Optional[Ty] = None) -> T:
        bound_self = recv is not None and not f.is_static and f.cls is not None
        b = self.bind(f, pos, kw, recv, bound_self)
        if b is not None and exact and (known := self.summary(f, b)) is not None:
            return known
        if b is not None and exact and not f.is_abstract and self.can_inline(f) and self.inline(f, recv):
            return self.call_inline(f, b, st, self_cls if f.cls is not None else None, e)
        ret = self.tr.ret(f, alt if alt is not None else (strip_none(recv.ty) if recv is not None else None))
        if b is None:
            args = self.fz_args(pos, kw, st)
        else:
            selfname = self.param_names(f)[0] if bound_self and self.param_names(f) else None
            dfl = self.defaults(f)
            args = []
            for k in self.param_names(f):
                if k in b and k != selfname:
                    v = self.freeze(b[k], st)
                    d = dfl.get(k)
                    if d is not None and isinstance(d, ast.Constant) and v.op == "const" and v.args[0] is d.value:
                        continue
                    args.append((k, v))
            args = tuple(args)
        name = self.root_name(f) if not super_ else f"super:{self.root_name(f)}"
        if f.is_async and False:
            pass
        t = T("call", (name, self.freeze(recv, st) if bound_self and recv is not None else None, args), ret, self.loc(e), st.pc, meta=f)
        self.emit(st, T("call", t.args, ret, t.loc, st.pc, meta=f))
        for x in self.effects(f):
            for k in [k for k in st.attrs if k[1] == x]:
                del st.attrs[k]
            st.attrs[(ANY_OBJECT, x)] = T("by", (t,))
        return t

    def call_inline(self, f: FuncInfo, bound: dict[str, T], st: State, self_cls: Optional[ClassInfo], e: ast.AST, closure: Optional[dict] = None) -> T:
        env: dict[str, T] = dict(closure or {})
        for k, v in bound.items():
            pt = self.param_type(f, k)
            if v.ty.kind == "any" and pt.kind != "any":
                v = v.with_ty(pt)
            env[k] = v
        saved = st.env
        # defaults are evaluated in the context of the definition
        tmp = State()
        tmp.heap = st.heap
        for k, d in self.defaults(f).items():
            if k not in bound and closure and f"={k}" in closure:
                env[k] = closure[f"={k}"]
            elif k not in bound:
                self.frames.append(Frame(f, self_cls, 0))
                try:
                    env[k] = self.ev(d, tmp)
                finally:
                    self.frames.pop()
        for k in self.param_names(f):
            if k not in env:
                if f.args.vararg and f.args.vararg.arg == k:
                    env[k] = T("seq", ("list", ()))
                else:
                    env[k] = T("unknown", ("arg", k), self.param_type(f, k))
        inner = st.copy()
        inner.env = env
        r = self._run_body(f, self_cls, inner)
        self.frame.raises.extend(r.raises) if self.frames else None
        st.become(r.state)
        st.env = saved
        if r.value.op == "bottom" and not f.is_generator:
            raise NoReturn(st)
        if f.is_generator:
            return T("seq", ("list", r.yields), self.tr.ret(f))
        v = r.value
        rt = self.tr.ret(f)
        if rt.kind not in ("any", "typevar") and (v.ty.kind == "any" or (v.op == "ref" and not v.ty.args and v.ty.kind == "ext")):
            v = v.with_ty(rt)
        return v

    def closure(self, node: ast.AST, name: str, cls: Optional[ClassInfo], ty: Ty, st: State) -> T:
        "A function object, with the variables of the enclosing function that it refers to."
        f = self.functions.get(id(node))
        if f is None:
            f = self.functions[id(node)] = FuncInfo(name, self.frame.func.module, cls, node, parent=self.frame.func)
        names = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        captured = tuple((n, st.env[n]) for n in sorted(names) if n != name and n in st.env and isinstance(st.env[n], T))
        # default values are those at the definition
        captured += tuple((f"={k}", self.freeze(self.ev(d, st), st)) for k, d in self.defaults(f).items())
        return T("closure", (f, id(node), captured), ty, self.loc(node), meta=dict(st.env))

    def call_value(self, callee: T, pos: list[T], kw: dict[str, T], st: State, e: ast.AST) -> T:
        if callee.op == "func":
            f: FuncInfo = callee.args[0]
            return self.call_func(f, None, pos, kw, st, e, f.cls, exact=True, unbound=True)
        if callee.op == "closure":
            f = callee.args[0]
            b = self.bind(f, pos, kw, None, False)
            if b is not None and self.can_inline(f):
                return self.call_inline(f, b, st, self.frame.self_cls, e, closure=closure_env(callee))
        if callee.op == "method":
            return self.call_method(callee.args[0], callee.args[1], pos, kw, st, e)
        if callee.op == "class":
            return self.construct(callee.args[0], pos, kw, st, e)
        if callee.op == "extern":
            return self.call_extern(callee.args[0], pos, kw, st, e)
        if callee.op == "phi":
            c = callee.args[0]
            sa, sb = st.copy(), st.copy()
            self.assume(sa, c, True)
            self.assume(sb, c, False)
            a = self.call_value(callee.args[1], pos, kw, sa, e)
            b2 = self.call_value(callee.args[2], pos, kw, sb, e)
            pc = st.pc
            r = self.phi_val(c, a, b2, sa, sb)
            st.become(self.merge(c, sa, sb))
            st.pc = pc
            return r
        ct = strip_none(callee.ty)
        ret = ct.args[0] if ct.kind == "ext" and ct.ref == "callable" and ct.args else ANY
        if ct.kind == "type" and ct.args and ct.args[0].kind == "cls":
            t = T("newof", (self.freeze(callee, st), self.fz_args(pos, kw, st)), ct.args[0], self.loc(e), st.pc)
            self.emit(st, t)
            return t
        t = T("call", ("()", self.freeze(callee, st), self.fz_args(pos, kw, st)), ret, self.loc(e), st.pc)
        self.emit(st, T("call", t.args, ret, t.loc, st.pc))
        return t

    def construct(self, c: ClassInfo, pos: list[T], kw: dict[str, T], st: State, e: ast.AST) -> T:
        if any(isinstance(x, str) and x.split("[")[0] in ("list",) for x in c.mro()) and not pos:
            return self.new_ref(st, "list", (), Ty("cls", c))
        if c.is_subclass_of("Enum") or c.is_subclass_of("enum.Enum"):
            return T("enumof", (c, self.fz_args(pos, kw, st)), Ty("cls", c), self.loc(e))
        init = c.find_method("__init__")
        if init is not None:
            b = self.bind(init, pos, kw, NONE_T, True)
            if b is None:
                args = self.fz_args(pos, kw, st)
            else:
                args = tuple((k, self.freeze(b[k], st)) for k in self.param_names(init)[1:] if k in b)
        else:
            fields = c.dataclass_fields()
            d: dict[str, T] = {}
            names = [f[0] for f in fields]
            ok = True
            for i, v in enumerate(pos):
                if i < len(names) and v.op != "star":
                    d[names[i]] = self.freeze(v, st)
                else:
                    ok = False
            for k, v in kw.items():
                d[k] = self.freeze(v, st)
            if ok:
                args = tuple((n, d[n]) for n in names if n in d) + tuple((k, v) for k, v in d.items() if k not in names)
            else:
                args = self.fz_args(pos, kw, st)
        t = T("new", (c, args), Ty("cls", c), self.loc(e), st.pc)
        self.emit(st, T("new", (c, args), Ty("cls", c), self.loc(e)))
        return t

    def extend(self, st: State, ref: T, v: T, node: ast.AST) -> None:
        "Appends all elements of an iterable to a list or set."
        src = self.view(v, st)
        if src.op in ("seq", "tup", "zip", "enumerate", "phi"):
            def body(x: T, s: State) -> list[Outcome]:
                self.append_item(s, ref, T("item", (self.freeze(x, s),), loc=self.loc(node)))
                return [Outcome("fall", s)]
            if src.op == "seq" and v.op == "ref" and v.args == ref.args:
                return
            outs = self.iterate(src, st.copy(), body, set(), node)
            falls = [o for o in outs if o.kind == "fall"]
            m, _ = self.merge_outcomes(falls, ())
            pc = st.pc
            st.become(m)
            st.pc = pc
        else:
            fz = self.freeze(src, st)
            bv = T("bv", (uid(),), self.tr.elem(fz.ty))
            self.append_item(st, ref, T("for", (fz, bv, (T("item", (bv,)),))))

    def map_over(self, src: T, fn: Callable[[T, State], Optional[T]], st: State, node: ast.AST, kind: str = "list") -> T:
        ref = self.new_ref(st, kind, (), Ty("ext", kind))
        tys: list[Ty] = []

        def body(x: T, s: State) -> list[Outcome]:
            y = fn(x, s)
            if y is not None:
                tys.append(y.ty)
                self.append_item(s, ref, T("item", (self.freeze(y, s),), loc=self.loc(node)))
            return [Outcome("fall", s)]

        outs = self.iterate(src, st.copy(), body, set(), node)
        falls = [o for o in outs if o.kind == "fall"]
        m, _ = self.merge_outcomes(falls, ())
        pc = st.pc
        st.become(m)
        st.pc = pc
        return T("ref", ref.args, Ty("ext", kind, (union(tys),) if tys else ()))

    def exists_term(self, src: T, st: State, node: ast.AST, pol: bool) -> T:
        "any(...) / all(...) over an iterable of truth values."
        v = self.view(src, st)
        if v.op == "seq":
            def go(items: tuple) -> Optional[T]:
                parts: list[T] = []
                for i in items:
                    if i.op == "item":
                        c = self.truth(i.args[0], st)
                        parts.append(c if pol else neg(c))
                    elif i.op == "for":
                        sub = go(i.args[2])
                        if sub is None:
                            return None
                        parts.append(T("exists", (i.args[0], i.args[1], sub), BOOL) if not is_const(sub, False) else FALSE)
                    elif i.op == "if":
                        a, b = go(i.args[1]), go(i.args[2])
                        if a is None or b is None:
                            return None
                        parts.append(disj([conj([i.args[0], a]), conj([neg(i.args[0]), b])]))
                    else:
                        return None
                return disj(parts)
            r = go(v.args[1])
            if r is not None:
                return r if pol else neg(r)
        return T("call", ("any" if pol else "all", None, (("0", self.freeze(v, st)),)), BOOL)

    def call_extern(self, name: str, pos: list[T], kw: dict[str, T], st: State, e: ast.AST) -> T:
        short = name.split(".")[-1]
        n = len(pos)
        if name in ("typing.cast", "cast") and n == 2:
            v = pos[1]
            ty = self.type_from_term(pos[0])
            return v.with_ty(ty) if ty.kind != "any" else v
        if name == "str":
            if n == 0:
                return const("")
            return self.mk_tmpl([self.freeze(pos[0], st)], self.loc(e))
        if name == "len" and n == 1:
            v = self.freeze(self.view(pos[0], st), st)
            if v.op == "tup":
                return const(len(v.args))
            if v.op == "const" and isinstance(v.args[0], str):
                return const(len(v.args[0]))
            return T("len", (v,), INT)
        if name in ("list", "tuple", "iter", "frozenset", "set", "sorted", "reversed", "deque"):
            kind = {"set": "set", "frozenset": "set"}.get(name, "list")
            if n == 0:
                return self.new_ref(st, kind, (), Ty("ext", kind))
            src = pos[0]
            v = self.view(src, st)
            if name in ("list", "tuple", "iter"):
                if v.op == "seq" and v.args[0] == "set":
                    return T("listof", (self.freeze(v, st),), Ty("ext", "list", v.ty.args))
                if v.op in ("seq", "tup", "zip", "enumerate"):
                    ref = self.new_ref(st, "list", (), Ty("ext", "list", (self.tr.elem(src.ty),)))
                    self.extend(st, ref, v, e)
                    return ref
                if v.op == "phi":
                    ref = self.new_ref(st, "list", (), Ty("ext", "list", (self.tr.elem(src.ty),)))
                    self.extend(st, ref, v, e)
                    return ref
                fz = self.freeze(v, st)
                ty = Ty("ext", "list", (self.tr.elem(fz.ty),))
                if name == "list":
                    return self.new_ref(st, "list", (T("splice", (fz,), loc=self.loc(e)),), ty)
                return fz.with_ty(ty)
            fz = self.freeze(v, st)
            ety = self.tr.elem(fz.ty)
            if kind == "set":
                ref = self.new_ref(st, "set", (), Ty("ext", "set", (ety,)))
                self.extend(st, ref, v, e)
                return T("ref", ref.args, Ty("ext", "set", (ety,)))
            if name == "sorted":
                key = tuple((k, self.freeze(x, st)) for k, x in sorted(kw.items()))
                return T("sorted", (fz, key), Ty("ext", "list", (ety,)), self.loc(e))
            if name == "reversed":
                if fz.op == "reversed":
                    return fz.args[0]
                return T("reversed", (fz,), Ty("ext", "list", (ety,)), self.loc(e))
        if name == "dict":
            if n == 0 and not kw:
                return self.new_ref(st, "dict", (), Ty("ext", "dict"))
            if n == 0:
                ref = self.new_ref(st, "dict", (), Ty("ext", "dict"))
                for k, v in kw.items():
                    self.append_item(st, ref, T("kv", (const(k), self.freeze(v, st)), loc=self.loc(e)))
                return ref
            v = self.view(pos[0], st)
            if v.op == "seq" and v.args[0] == "dict":
                return self.new_ref(st, "dict", v.args[1], v.ty)
        if name == "enumerate":
            start = pos[1] if n > 1 else kw.get("start", const(0))
            return T("enumerate", (pos[0], start), Ty("ext", "iterable", (Ty("ext", "tuple", (INT, self.tr.elem(pos[0].ty))),)))
        if name == "range" and not kw and n in (1, 2):
            lo, hi = (const(0), pos[0]) if n == 1 else (pos[0], pos[1])
            hi = self.freeze(hi, st)
            if lo.op == "const" and isinstance(lo.args[0], int):
                k = lo.args[0]
                if hi.op == "len" and k == 0:
                    return T("indices", (hi.args[0], lo), Ty("ext", "list", (INT,)))
                if hi.op == "binop" and hi.args[0] == "Add" and {hi.args[1].op, hi.args[2].op} == {"len", "const"}:
                    a, b = (hi.args[1], hi.args[2]) if hi.args[1].op == "len" else (hi.args[2], hi.args[1])
                    if is_const(b, k):
                        return T("indices", (a.args[0], lo), Ty("ext", "list", (INT,)))
        if name == "zip":
            return T("zip", tuple(pos), Ty("ext", "iterable", (Ty("ext", "tuple", tuple(self.tr.elem(p.ty) for p in pos)),)))
        if name == "map" and n == 2:
            fn = pos[0]
            return self.map_over(pos[1], lambda x, s: self.call_value(fn, [x], {}, s, e), st, e)
        if name == "filter" and n == 2:
            fn = pos[0]
            ref = self.new_ref(st, "list", (), Ty("ext", "list"))

            def body(x: T, s: State) -> list[Outcome]:
                c = self.truth(x if is_const(fn, None) else self.call_value(fn, [x], {}, s, e), s)
                c = self.known(c, s)
                s2 = s.copy()
                self.append_item(s2, ref, T("item", (self.freeze(x, s),), loc=self.loc(e)))
                m = self.merge(c, s2, s)
                return [Outcome("fall", m)]

            outs = self.iterate(pos[1], st.copy(), body, set(), e)
            m, _ = self.merge_outcomes([o for o in outs if o.kind == "fall"], ())
            pc = st.pc
            st.become(m)
            st.pc = pc
            return T("ref", ref.args, Ty("ext", "list", (self.tr.elem(pos[1].ty),)))
        if name in ("any", "all") and n == 1:
            return self.exists_term(pos[0], st, e, name == "any")
        if name == "next" and n >= 1:
            v = T("next", tuple(self.freeze(p, st) for p in pos), self.tr.elem(pos[0].ty))
            if isinstance(e, ast.Call) and e.args and isinstance(e.args[0], ast.Name) and pos[0].op != "ref":
                # the iterator moves on
                st.env[e.args[0].id] = T("rest", (self.freeze(pos[0], st),), pos[0].ty)
            return v
        if name == "isinstance" and n == 2:
            v = self.freeze(pos[0], st)
            ty = self.type_from_term(pos[1])
            if pos[1].op == "tup":
                ty = union([self.type_from_term(x) for x in pos[1].args])
            t = self.isinstance_term(v, ty)
            if t.op == "isinstance" and ty.kind == "any":
                t = T("isinstance", (v, ty, self.freeze(pos[1], st)), BOOL)
            return t
        if name == "getattr" and n >= 2 and pos[1].op == "const":
            return self.attr(pos[0], pos[1].args[0], st, e)
        if name == "super":
            return T("super", ())
        if name == "bool" and n == 1:
            return self.truth(pos[0], st)
        if name == "type" and n == 1:
            if is_const(pos[0], None):
                return T("extern", ("types.NoneType",))
        if name == "functools.partial" and n >= 1:
            return T("partial", (self.freeze(pos[0], st), self.fz_args(pos[1:], kw, st)))
        if name == "copy.copy" and n == 1:
            t = T("copy", (self.freeze(pos[0], st),), pos[0].ty, self.loc(e))
            return t
        if name == "copy.deepcopy" and n == 1:
            return T("deepcopy", (self.freeze(pos[0], st),), pos[0].ty, self.loc(e))
        if name == "itertools.chain":
            ref = self.new_ref(st, "list", (), Ty("ext", "list"))
            for p in pos:
                self.extend(st, ref, p, e)
            return ref
        if name == "asyncio.gather" and not kw:
            # the results, in the order of the operations
            self.emit(st, T("call", (name, None, self.fz_args(pos, kw, st)), ANY, self.loc(e), st.pc))
            ref = self.new_ref(st, "list", (), Ty("ext", "list"))
            for p in pos:
                if p.op == "star":
                    self.extend(st, ref, p.args[0], e)
                else:
                    self.append_item(st, ref, T("item", (self.freeze(p, st),), loc=self.loc(e)))
            return ref
        ret = {"repr": STR, "int": INT, "range": Ty("ext", "list", (INT,)), "hash": INT, "id": INT, "bytes": BYTES, "float": Ty("ext", "float")}.get(name, None)
        if ret is None:
            if short[:1].isupper() and name not in ("Exception",):
                ret = Ty("ext", name)
            else:
                ret = ANY
        args = self.fz_args(pos, kw, st)
        t = T("call", (name, None, args), ret, self.loc(e), st.pc)
        self.emit(st, T("call", t.args, ret, t.loc, st.pc))
        return t

    def isinstance_term(self, v: T, ty: Ty) -> T:
        if v.op == "new":
            ts = alts(ty)
            if all(t.kind == "cls" for t in ts):
                return const(any(v.args[0].is_subclass_of(t.ref) for t in ts))
        if v.op in ("tmpl", "strop", "join") or (v.op == "const" and isinstance(v.args[0], str)):
            if ty == STR:
                return TRUE
            if ty.kind == "ext" and ty.ref in ("int", "bool", "list", "dict"):
                return FALSE
        if v.op == "phi":
            return phi(v.args[0], self.isinstance_term(v.args[1], ty), self.isinstance_term(v.args[2], ty))
        return T("isinstance", (v, ty), BOOL)

    def type_from_term(self, t: T) -> Ty:
        if t.op == "class":
            return Ty("cls", t.args[0])
        if t.op == "extern":
            return Ty("ext", t.args[0])
        if t.op == "const" and isinstance(t.args[0], str):
            try:
                return self.tr._annot(self.frame.func.module, ast.parse(t.args[0], mode="eval").body)
            except SyntaxError:
                return ANY
        if t.op == "sub":
            return ANY
        return ANY

    STR_BOOL = {"startswith", "endswith", "isdigit", "isidentifier", "isalpha", "islower", "isupper", "isspace"}

    def call_builtin_method(self, recv: T, name: str, pos: list[T], kw: dict[str, T], st: State, e: ast.AST) -> T:
        v = self.view(recv, st)
        # string methods
        if name == "join" and len(pos) == 1:
            src = self.view(pos[0], st)
            ref = None
            if src.op in ("zip", "enumerate"):
                r2 = self.new_ref(st, "list")
                self.extend(st, r2, src, e)
                src = st.heap[r2.args[0]]
            return T("join", (self.freeze(recv, st), self.freeze(src, st)), STR if recv.ty != BYTES else BYTES, self.loc(e))
        if name == "format" and recv.op == "const" and isinstance(recv.args[0], str):
            r = self.format_call(recv.args[0], pos, kw, st, e)
            if r is not None:
                return r
        is_str = recv.ty == STR or recv.op in ("tmpl", "strop", "join") or (recv.op == "const" and isinstance(recv.args[0], str))
        str_methods = {"replace", "strip", "lstrip", "rstrip", "lower", "upper", "title", "translate", "removeprefix", "removesuffix", "casefold", "zfill", "ljust", "rjust", "capitalize", "expandtabs"}
        if name in str_methods and (is_str or recv.ty.kind == "any" or strip_none(recv.ty) == STR):
            args = tuple(self.freeze(p, st) for p in pos)
            if recv.op == "const" and isinstance(recv.args[0], str) and all(a.op == "const" for a in args):
                try:
                    return const(getattr(recv.args[0], name)(*[a.args[0] for a in args]))
                except Exception:
                    pass
            return T("strop", (name, self.freeze(recv, st), args), STR, self.loc(e))
        if recv.op == "ref":
            if name in ("append", "add"):
                if len(pos) == 1:
                    x = pos[0]
                    self.append_item(st, recv, T("item", (self.freeze(x, st),), loc=self.loc(e)))
                    return NONE_T
            if name in ("extend", "update") and len(pos) == 1 and v.op == "seq":
                if v.args[0] == "dict":
                    d = self.view(pos[0], st)
                    if d.op == "seq":
                        for i in d.args[1]:
                            self.append_item(st, recv, i)
                    else:
                        self.append_item(st, recv, T("splice", (self.freeze(d, st),)))
                else:
                    self.extend(st, recv, pos[0], e)
                return NONE_T
            if name == "insert" and len(pos) == 2 and is_const(pos[0], 0) and v.op == "seq" and self.born.get(recv.args[0]) == loops_of(st):
                st.heap[recv.args[0]] = T("seq", (v.args[0], (T("item", (self.freeze(pos[1], st),), loc=self.loc(e)),) + v.args[1]), v.ty)
                return NONE_T
            if name in ("clear",):
                st.heap[recv.args[0]] = T("seq", (v.args[0] if v.op == "seq" else "list", ()), v.ty)
                return NONE_T
            if name == "discard" and v.op == "seq" and v.args[0] == "set" and len(pos) == 1 and is_const(pos[0], None):
                st.heap[recv.args[0]] = T("seq", ("set", self.without_none(v.args[1])), v.ty)
                return NONE_T
            if name in ("discard", "remove") and v.op == "seq":
                if v.args[0] in ("set", "list"):
                    st.heap[recv.args[0]] = T("seq", (v.args[0], v.args[1] + (T("discard", (self.freeze(pos[0], st),), loc=self.loc(e)),)), v.ty)
                return NONE_T
            if name == "copy" and v.op == "seq":
                return self.new_ref(st, v.args[0], v.args[1], recv.ty)
            if name == "reverse" and v.op == "seq":
                st.heap[recv.args[0]] = T("seq", (v.args[0], (T("splice", (T("reversed", (v,)),)),)), v.ty)
                return NONE_T
            if name == "sort" and v.op == "seq":
                key = tuple((k, self.freeze(x, st)) for k, x in sorted(kw.items()))
                st.heap[recv.args[0]] = T("seq", ("list", (T("splice", (T("sorted", (v, key), v.ty),)),)), v.ty)
                return NONE_T
            if v.op == "seq" and v.args[0] == "dict":
                if name == "items" and all(i.op in ("kv", "if", "for") for i in v.args[1]):
                    return T("seq", ("list", self.map_kv(v.args[1], lambda k, x: T("tup", (k, x), Ty("ext", "tuple", (k.ty, x.ty))))))
                if name == "values":
                    return T("seq", ("list", self.map_kv(v.args[1], lambda k, x: x)))
                if name == "keys":
                    return T("seq", ("list", self.map_kv(v.args[1], lambda k, x: k)))
                if name == "get" and pos and pos[0].op in ("const", "enum"):
                    for it in v.args[1]:
                        if it.op == "kv" and it.args[0] == pos[0]:
                            return it.args[1]
        fz = self.freeze(recv, st)
        t = strip_none(fz.ty)
        ret = ANY
        if t.kind == "ext":
            if t.ref in ("dict", "defaultdict") and len(t.args) == 2:
                ret = {"items": Ty("ext", "items", t.args), "values": Ty("ext", "iterable", (t.args[1],)), "keys": Ty("ext", "iterable", (t.args[0],)), "get": union([t.args[1], NONE]), "pop": t.args[1]}.get(name, ANY)
            elif t.ref in ("list", "set", "iterable") and t.args:
                ret = {"pop": t.args[0], "copy": t}.get(name, ANY)
            elif t.ref == "str":
                if name in self.STR_BOOL:
                    ret = BOOL
                elif name in ("split", "rsplit", "splitlines"):
                    ret = Ty("ext", "list", (STR,))
                elif name in ("index", "find", "rfind", "count"):
                    ret = INT
                elif name == "encode":
                    ret = BYTES
                elif name in ("partition", "rpartition"):
                    ret = Ty("ext", "tuple", (STR, STR, STR))
                elif name == "format":
                    ret = STR
        if name == "setdefault":
            ret = t.args[1] if t.kind == "ext" and t.ref in ("dict", "defaultdict") and len(t.args) == 2 else ANY
        if recv.op == "ref" and name in ("setdefault", "pop", "popitem", "insert", "remove", "discard", "difference_update", "intersection_update", "symmetric_difference_update", "move_to_end", "extend", "update", "sort", "reverse", "clear", "append", "add"):
            # contents change in a way that is not modelled exactly
            r = T("call", ("." + name, fz, self.fz_args(pos, kw, st)), ret, self.loc(e), st.pc)
            if name == "setdefault" and v.op == "seq" and pos:
                self.append_item(st, recv, T("kv", (self.freeze(pos[0], st), T("call", r.args, ret, r.loc, st.pc)), loc=self.loc(e)))
            else:
                st.heap[recv.args[0]] = T("after", (name, self.freeze(recv, st), self.fz_args(pos, kw, st)), v.ty)
            self.emit(st, T("call", r.args, ret, r.loc, st.pc))
            return r
        pure = t.kind == "ext" and t.ref in ("str", "dict", "list", "set", "tuple") and name not in ("append", "extend", "add", "update", "pop", "remove", "clear", "insert", "setdefault", "discard", "sort", "reverse")
        r = T("call", ("." + name, fz, self.fz_args(pos, kw, st)), ret, self.loc(e), st.pc)
        if not pure:
            self.emit(st, T("call", r.args, ret, r.loc, st.pc))
        return r

    def map_kv(self, items: tuple, fn: Callable[[T, T], T]) -> tuple:
        out: list[T] = []
        for i in items:
            if i.op == "kv":
                out.append(T("item", (fn(i.args[0], i.args[1]),), loc=i.loc))
            elif i.op == "if":
                out.append(T("if", (i.args[0], self.map_kv(i.args[1], fn), self.map_kv(i.args[2], fn))))
            elif i.op == "for":
                out.append(T("for", (i.args[0], i.args[1], self.map_kv(i.args[2], fn)) + i.args[3:]))
            else:
                out.append(i)
        return tuple(out)

    def format_call(self, fmt: str, pos: list[T], kw: dict[str, T], st: State, e: ast.AST) -> Optional[T]:
        import string
        parts: list[object] = []
        auto = 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(fmt):
                parts.append(lit)
                if fld is None:
                    continue
                if spec or conv:
                    return None
                if fld == "":
                    parts.append(self.freeze(pos[auto], st))
                    auto += 1
                elif fld.isdigit():
                    parts.append(self.freeze(pos[int(fld)], st))
                elif fld in kw:
                    parts.append(self.freeze(kw[fld], st))
                else:
                    return None
        except (ValueError, IndexError):
            return None
        return self.mk_tmpl(parts, self.loc(e))


def repr_key(t: T) -> str:
    def k(x: object, d: int = 0) -> str:
        if isinstance(x, T):
            if x.op in ("bv", "carried"):
                return x.op
            if d > 6:
                return x.op
            return x.op + "(" + ",".join(k(y, d + 1) for y in x.args) + ")"
        if isinstance(x, tuple):
            return "[" + ",".join(k(y, d + 1) for y in x) + "]"
        if isinstance(x, (ClassInfo, FuncInfo)):
            return x.qualname
        return repr(x)
    return k(t)
