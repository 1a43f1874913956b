"Annotation-driven types of terms."

from __future__ import annotations

import ast
from dataclasses import dataclass
from typing import Optional

from .program import ClassInfo, FuncInfo, Module, Program, dotted


@dataclass(frozen=True)
class Ty:
    kind: str  # cls | type | ext | union | none | any | tuple | func | module | coro | typevar
    ref: object = None
    args: tuple["Ty", ...] = ()

    def __repr__(self) -> str:
        n = self.ref.name if isinstance(self.ref, (ClassInfo, FuncInfo, Module)) else self.ref
        a = "[" + ",".join(map(repr, self.args)) + "]" if self.args else ""
        return f"{self.kind}:{n}{a}"

    @property
    def cls(self) -> Optional[ClassInfo]:
        return self.ref if self.kind == "cls" else None  # type: ignore

    def is_ext(self, *names: str) -> bool:
        return self.kind == "ext" and any(self.ref == n for n in names)


ANY = Ty("any")
NONE = Ty("none")
STR = Ty("ext", "str")
INT = Ty("ext", "int")
BOOL = Ty("ext", "bool")
BYTES = Ty("ext", "bytes")
FLOAT = Ty("ext", "float")

_ALIASES = {
    "List": "list", "Dict": "dict", "Set": "set", "FrozenSet": "frozenset", "Tuple": "tuple", "Type": "type",
    "Sequence": "list", "MutableSequence": "list", "Iterable": "iterable", "Iterator": "iterable",
    "AsyncIterable": "asynciterable", "AsyncIterator": "asynciterable", "Mapping": "dict", "KeysView": "keys",
    "ValuesView": "iterable", "ItemsView": "items", "Collection": "iterable", "Generator": "iterable",
    "AsyncGenerator": "asynciterable",
}


def union(types: list[Ty]) -> Ty:
    flat: list[Ty] = []
    for t in types:
        if t.kind == "union":
            flat.extend(t.args)
        elif t not in flat:
            flat.append(t)
    uniq: list[Ty] = []
    for t in flat:
        if t not in uniq:
            uniq.append(t)
    if not uniq:
        return ANY
    if len(uniq) == 1:
        return uniq[0]
    return Ty("union", None, tuple(uniq))


def strip_none(t: Ty) -> Ty:
    if t.kind == "union":
        return union([a for a in t.args if a != NONE])
    return t


def alts(t: Ty) -> tuple[Ty, ...]:
    return t.args if t.kind == "union" else (t,)


class TypeResolver:
    def __init__(self, prog: Program) -> None:
        self.prog = prog
        self._cache: dict[tuple[int, str], Ty] = {}

    def annot(self, m: Module, node: Optional[ast.AST]) -> Ty:
        if node is None:
            return ANY
        key = (id(node), m.name)
        if key not in self._cache:
            self._cache[key] = ANY
            self._cache[key] = self._annot(m, node)
        return self._cache[key]

    def _annot(self, m: Module, node: ast.AST) -> Ty:
        if isinstance(node, ast.Constant):
            if node.value is None:
                return NONE
            if isinstance(node.value, str):
                try:
                    return self._annot(m, ast.parse(node.value, mode="eval").body)
                except SyntaxError:
                    return ANY
            return ANY
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return union([self._annot(m, node.left), self._annot(m, node.right)])
        if isinstance(node, ast.Subscript):
            base = self.prog.resolve_expr(m, node.value)
            elts = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            if isinstance(base, ClassInfo):
                return Ty("cls", base, tuple(self._annot(m, e) for e in elts))
            name = (base if isinstance(base, str) else dotted(node.value) or "?").split(".")[-1]
            if name == "Optional":
                return union([self._annot(m, elts[0]), NONE])
            if name == "Union":
                return union([self._annot(m, e) for e in elts])
            if name in ("Annotated", "ClassVar", "Final"):
                return self._annot(m, elts[0])
            if name in ("Literal",):
                return STR
            if name == "Callable":
                ret = self._annot(m, elts[1]) if len(elts) > 1 else ANY
                return Ty("ext", "callable", (ret,))
            if name in ("Awaitable", "Coroutine"):
                return Ty("coro", None, (self._annot(m, elts[-1]),))
            name2 = _ALIASES.get(name, name)
            args = tuple(self._annot(m, e) for e in elts if not (isinstance(e, ast.Constant) and e.value is ...))
            if name2 == "type":
                return Ty("type", None, args)
            if name2 in ("list", "dict", "set", "frozenset", "tuple", "iterable", "asynciterable", "keys", "items", "deque", "defaultdict"):
                variadic = any(isinstance(e, ast.Constant) and e.value is ... for e in elts)
                if name2 == "tuple" and variadic:
                    return Ty("ext", "list", args)  # homogeneous tuple iterates like a list
                return Ty("ext", name2, args)
            return Ty("ext", base if isinstance(base, str) else name, args)
        r = self.prog.resolve_expr(m, node)
        if isinstance(r, ClassInfo):
            return Ty("cls", r)
        if isinstance(r, tuple) and r[0] == "var":
            vm: Module = r[1]
            val = vm.variables.get(r[2])
            if isinstance(val, ast.Call) and (dotted(val.func) or "").split(".")[-1] == "TypeVar":
                for kw in val.keywords:
                    if kw.arg == "bound":
                        b = self._annot(vm, kw.value)
                        return Ty("typevar", r[2], (b,))
                return Ty("typevar", r[2])
            if val is not None:
                return self.annot(vm, val)
            return ANY
        if isinstance(r, str):
            name = r.split(".")[-1]
            if r in ("typing.Any", "Any"):
                return ANY
            if r in ("None",):
                return NONE
            if r.startswith("typing.") or r.startswith("collections.abc."):
                if name == "Callable":
                    return Ty("ext", "callable")
                return Ty("ext", _ALIASES.get(name, r))
            return Ty("ext", r)
        return ANY

    def class_of(self, name: str) -> Ty:
        return Ty("cls", self.prog.find_class(name))

    def elem(self, t: Ty) -> Ty:
        "Type of elements obtained by iterating over a value of the type."
        t = strip_none(t)
        if t.kind == "ext":
            if t.ref in ("list", "set", "frozenset", "iterable", "asynciterable", "keys", "deque") and t.args:
                return t.args[0]
            if t.ref in ("dict", "defaultdict") and t.args:
                return t.args[0]
            if t.ref == "items" and len(t.args) == 2:
                return Ty("ext", "tuple", t.args)
            if t.ref == "tuple" and t.args:
                return union(list(t.args))
            if t.ref == "str":
                return STR
            return ANY
        if t.kind == "cls":
            c: ClassInfo = t.ref  # type: ignore
            for b in c.node.bases:
                if isinstance(b, ast.Subscript) and (dotted(b.value) or "").split(".")[-1] in ("list", "set", "List", "Iterable", "Mapping"):
                    return self.elem(self.annot(c.module, b))
            it = c.find_method("__iter__")
            if it is not None:
                return self.elem(self.ret(it, t))
        if t.kind == "union":
            return union([self.elem(a) for a in t.args])
        return ANY

    def subst(self, t: Ty, recv: Optional[Ty]) -> Ty:
        "Substitutes type variables of a generic class by the arguments of the receiver."
        if recv is None or recv.kind != "cls" or not recv.args:
            return t
        c: ClassInfo = recv.ref  # type: ignore
        params = c.type_params
        if not params:
            return t
        m = dict(zip(params, recv.args))

        def go(x: Ty) -> Ty:
            if x.kind == "typevar" and x.ref in m:
                return m[x.ref]
            if x.args:
                if x.kind == "union":
                    return union([go(a) for a in x.args])
                return Ty(x.kind, x.ref, tuple(go(a) for a in x.args))
            return x

        return go(t)

    def ret(self, f: FuncInfo, recv: Optional[Ty] = None) -> Ty:
        if isinstance(f.node, ast.Lambda):
            return ANY
        t = self.subst(self.annot(f.module, f.node.returns), recv)  # type: ignore
        return t
