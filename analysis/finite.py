"""
Evaluation of extracted terms over finitely many representatives. A function whose behaviour depends on its arguments by their
classes, by comparisons with the constants of its text and by order alone behaves alike on all arguments between two neighbouring
constants, so the value of its (extracted) term on representatives of each region decides it for all arguments.
"""

from __future__ import annotations

import ast
import math
import operator
from dataclasses import dataclass
from typing import Callable, Iterable, Optional

from .framework import Ctx
from .program import ClassInfo, FuncInfo
from .terms import T, closure_env
from .types import Ty, alts


class Undecided(Exception):
    "The term depends on something that the evaluation does not model."


class Raised(Exception):
    "The path ends in an exception."


@dataclass(frozen=True)
class Obj:
    cls: ClassInfo
    attrs: tuple[tuple[str, object], ...]

    def get(self, name: str) -> object:
        for n, v in self.attrs:
            if n == name:
                return v
        raise KeyError(name)

    def __str__(self) -> str:
        return f"{self.cls.name}({', '.join(f'{n}={v!r}' if not isinstance(v, Obj) else f'{n}={v}' for n, v in self.attrs)})"


@dataclass(frozen=True)
class Member:
    "A member of an enumeration."
    cls: ClassInfo
    name: str


@dataclass(frozen=True)
class Cls:
    "A class as a value."
    ref: object  # ClassInfo or dotted name


@dataclass(frozen=True)
class Ext:
    "An object of a library."
    kind: str
    attrs: tuple[tuple[str, object], ...]


CMP: dict[str, Callable[[object, object], bool]] = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne, "is": operator.is_, "is not": operator.is_not}
MATH: dict[str, Callable] = {f"math.{n}": getattr(math, n) for n in ("ceil", "floor", "log2", "log10", "log", "trunc", "sqrt")}
BIN: dict[str, Callable] = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "FloorDiv": operator.floordiv, "Mod": operator.mod, "Div": operator.truediv}


def logs(e: ast.expr) -> bool:
    "A message is written to a log."
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.attr in ("debug", "info", "warning", "error", "exception", "critical", "log")


class Finite:
    def __init__(self, ctx: Ctx, inline: Callable[[FuncInfo, object], bool] = lambda g, r: True, model: Optional[Callable[["Finite", T, dict], object]] = None) -> None:
        self.ctx = ctx
        self.prog = ctx.prog
        # what quoting a text gives is the subject of another property
        self.inline = lambda g, r: g.name != "quote" and inline(g, r)
        self.model = model
        self.cache: dict[tuple, object] = {}
        self.depth = 0

    # -- functions

    def result(self, f: FuncInfo, cls: Optional[ClassInfo]):
        k = (f, cls)
        if k not in self.cache:
            self.cache[k] = self.ctx.run(f, cls, inline=self.inline)
        return self.cache[k]

    def call(self, f: FuncInfo, cls: Optional[ClassInfo], env: dict[str, object]) -> object:
        "Value of a call; parameters by name."
        r = self.result(f, cls)
        e = {T("param", (n,)): v for n, v in env.items()}
        self.depth += 1
        try:
            if self.depth > 40:
                raise Undecided(f"recursion in {f.short}")
            for value, pc in r.returns:
                if self.taken(pc, e):
                    return self.value(value, e)
            if not r.raises and not r.returns:
                raise Undecided(f"{f.short} has no outcome")
            for o in r.raises:
                if self.taken(getattr(o.state, "pc", ()), e):
                    raise Raised(f.short)
            return None
        finally:
            self.depth -= 1

    def taken(self, pc: tuple, env: dict[T, object]) -> bool:
        "Whether a path is taken (for some element, where it goes through a loop)."
        for i, c in enumerate(pc):
            if c.op == "each":
                return any(self.taken(pc[i + 1:], {**env, c.args[1]: v}) for v in self.value(c.args[0], env) or ())  # type: ignore
            if not self.truth(c, env):
                return False
        return True

    def text(self, v: object) -> str:
        if isinstance(v, Obj):
            f = v.cls.find_method("__str__")
            if f is None:
                raise Undecided(f"text of {v.cls.name}")
            s = self.call(f, v.cls, {"self": v})
            if not isinstance(s, str):
                raise Undecided(f"text of {v.cls.name}")
            return s
        if isinstance(v, (str, int)):
            return str(v)
        raise Undecided(f"text of {v!r}")

    # -- objects

    def construct(self, cls: ClassInfo, args: Iterable[tuple[str, object]]) -> Obj:
        args = list(args)
        fields: dict[str, object] = {}
        init = cls.find_method("__init__")
        owner = next((c for c in cls.project_mro() if "__init__" in c.methods or c.is_dataclass), None)
        if init is not None and owner is not None and "__init__" in owner.methods:
            self.fields_of_init(cls, init, args, fields)
        else:
            self.fields_of_dataclass(cls, args, fields)
        return Obj(cls, tuple(sorted(fields.items(), key=lambda x: x[0])))

    def bind(self, names: list[str], args: list[tuple[str, object]]) -> dict[str, object]:
        out: dict[str, object] = {}
        for k, v in args:
            n = names[int(k)] if k.isdigit() and int(k) < len(names) else k
            if n not in names or n in out:
                raise Raised(f"unexpected argument {k}")
            out[n] = v
        return out

    def fields_of_dataclass(self, cls: ClassInfo, args: list[tuple[str, object]], fields: dict[str, object]) -> None:
        declared = cls.dataclass_fields()
        given = self.bind([n for n, _, _, _ in declared], args)
        for n, _, default, _ in declared:
            if n in given:
                fields[n] = given[n]
            elif default is not None:
                fields[n] = self.literal(default)
            else:
                raise Raised(f"missing argument {n}")

    def literal(self, node: ast.expr, env: Optional[dict[str, object]] = None) -> object:
        if isinstance(node, ast.Constant):
            return node.value
        if isinstance(node, ast.Name) and env is not None and node.id in env:
            return env[node.id]
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            return -self.literal(node.operand)  # type: ignore
        raise Undecided(ast.unparse(node))

    def fields_of_init(self, cls: ClassInfo, init: FuncInfo, args: list[tuple[str, object]], fields: dict[str, object]) -> None:
        a = init.args
        names = [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]
        given = self.bind(names, args)
        pos = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults)) | {k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        for n in names:
            if n not in given:
                if n not in defaults:
                    raise Raised(f"missing argument {n}")
                given[n] = self.literal(defaults[n])
        # class-level defaults of the fields that the constructor does not set
        for n, _, default, _ in cls.dataclass_fields():
            if default is not None:
                fields[n] = self.literal(default)
        for st in init.node.body:
            if isinstance(st, (ast.Pass, ast.Assert)) or isinstance(st, ast.Expr) and (isinstance(st.value, ast.Constant) or logs(st.value)):
                continue
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and ast.unparse(st.value.func) == "super().__init__":
                sub = [(str(i), self.literal(x, given)) for i, x in enumerate(st.value.args)] + [(k.arg or "", self.literal(k.value, given)) for k in st.value.keywords]
                base = init.cls.project_mro()[1] if init.cls is not None and len(init.cls.project_mro()) > 1 else None
                if base is None:
                    raise Undecided(ast.unparse(st))
                fields.update(dict(self.construct(base, sub).attrs))
                continue
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                t = st.targets[0] if isinstance(st, ast.Assign) else st.target
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                    fields[t.attr] = self.literal(st.value, given)
                    continue
            raise Undecided(ast.unparse(st))

    # -- terms

    def truth(self, t: T, env: dict[T, object]) -> bool:
        if t.op in ("each", "exc"):
            raise Undecided(t.op)
        v = self.value(t, env)
        if isinstance(v, (Obj, Cls, Member, Ext)):
            return True
        return bool(v)

    def instance(self, v: object, ty: Ty) -> bool:
        if ty.kind == "union":
            return any(self.instance(v, a) for a in alts(ty))
        if ty.kind == "cls":
            return isinstance(v, Obj) and v.cls.is_subclass_of(ty.ref)
        if ty.kind == "none":
            return v is None
        if ty.kind == "ext" and isinstance(v, Ext):
            return v.kind == ty.ref
        if ty.kind == "cls" and isinstance(v, Ext):
            return False
        if ty.kind == "ext":
            m = {"str": str, "int": int, "bool": bool, "float": float}.get(str(ty.ref))
            if m is not None:
                return isinstance(v, m)
            if isinstance(v, (Obj, str, int, type(None))):
                return False
        raise Undecided(f"isinstance {ty}")

    def value(self, t: T, env: dict[T, object]) -> object:
        if t in env:
            return env[t]
        a = t.args
        op = t.op
        if self.model is not None:
            r = self.model(self, t, env)
            if r is not NotImplemented:
                return r
        if op == "const":
            return a[0]
        if op == "phi":
            return self.value(a[1] if self.truth(a[0], env) else a[2], env)
        if op == "not":
            return not self.truth(a[0], env)
        if op == "and":
            return all(self.truth(x, env) for x in a)
        if op == "or":
            return any(self.truth(x, env) for x in a)
        if op == "isnone":
            return self.value(a[0], env) is None
        if op == "exists":
            return any(self.truth(a[2], {**env, a[1]: v}) for v in self.value(a[0], env) or ())  # type: ignore
        if op == "isinstance":
            return self.instance(self.value(a[0], env), a[1])
        if op == "cmp":
            x, y = self.value(a[1], env), self.value(a[2], env)
            if a[0] in ("==", "is") and isinstance(x, Obj) and isinstance(y, Obj):
                return self.equal(x, y)
            if a[0] in ("!=", "is not") and isinstance(x, Obj) and isinstance(y, Obj):
                return not self.equal(x, y)
            if a[0] in ("is", "is not"):
                return (x == y) == (a[0] == "is")
            try:
                return CMP[a[0]](x, y)
            except TypeError:
                raise Raised(f"{a[0]} of {x!r} and {y!r}")
        if op == "in":
            x, c = self.value(a[0], env), self.value(a[1], env)
            return any(x == y for y in c) if not isinstance(c, str) else x in c  # type: ignore
        if op == "attr":
            o = self.value(a[0], env)
            if isinstance(o, Obj):
                try:
                    return o.get(a[1])
                except KeyError:
                    f = o.cls.find_method(a[1])
                    if f is not None and f.is_property:
                        return self.call(f, o.cls, {"self": o})
            if isinstance(o, Ext) and a[1] in dict(o.attrs):
                return dict(o.attrs)[a[1]]
            if isinstance(o, Cls) and a[1] == "__name__":
                return o.ref.name if isinstance(o.ref, ClassInfo) else str(o.ref).rsplit(".", 1)[-1]
            raise Undecided(f"attribute {a[1]}")
        if op == "tmpl":
            return "".join(p if isinstance(p, str) else self.text(self.value(p, env)) for p in a)
        if op == "fmt":
            v = self.value(a[0], env)
            if isinstance(v, (str, int)) and isinstance(a[1], (str, type(None))) and a[2] in (-1, 115, None):
                return format(v, a[1] or "")
            return self.text(v)
        if op == "enum":
            return Member(a[0], a[1])
        if op == "class":
            return Cls(a[0])
        if op == "extern":
            return Cls(a[0])
        if op == "tup":
            return tuple(self.value(x, env) for x in a)
        if op == "seq":
            return self.items(t, env)
        if op in ("copy", "ornone", "listof", "tupleof", "setof", "deepcopy") and isinstance(a[0], T):
            return self.value(a[0], env)
        if op == "sorted" and not a[1]:
            xs = list(self.value(a[0], env))  # type: ignore
            if all(isinstance(x, str) for x in xs) or all(isinstance(x, int) for x in xs):
                return sorted(xs)
            raise Undecided(op)
        if op == "len":
            return len(self.value(a[0], env))  # type: ignore
        if op == "join":
            return self.text(self.value(a[0], env)).join(self.text(x) for x in self.value(a[1], env))  # type: ignore
        if op == "strop":
            v = self.value(a[1], env)
            if not isinstance(v, str):
                raise Undecided(f".{a[0]}")
            return getattr(v, a[0])(*[self.value(x, env) for x in a[2]])
        if op == "sub":
            o, k = self.value(a[0], env), self.value(a[1], env)
            if isinstance(o, (tuple, list, str)) and isinstance(k, int) or isinstance(o, dict):
                try:
                    return o[k]  # type: ignore
                except (KeyError, IndexError):
                    raise Raised("subscript")
            raise Undecided("subscript")
        if op == "slice" and isinstance(a[0], T):
            o = self.value(a[0], env)
            ks = [self.value(x, env) if isinstance(x, T) else x for x in a[1:]]
            if isinstance(o, (tuple, list, str)) and all(k is None or isinstance(k, int) for k in ks):
                return o[slice(*ks)]
            raise Undecided("slice")
        if op == "binop" and a[0] in BIN:
            x, y = self.value(a[1], env), self.value(a[2], env)
            try:
                return BIN[a[0]](x, y)
            except TypeError:
                raise Raised(f"{a[0]} of {x!r} and {y!r}")
        if op == "new":
            return self.construct(a[0], [(k, self.value(v, env)) for k, v in a[1]])
        if op == "newof":
            c = self.value(a[0], env)
            if isinstance(c, Cls) and isinstance(c.ref, ClassInfo):
                return self.construct(c.ref, [(k, self.value(v, env)) for k, v in a[1]])
            raise Undecided("constructor of an unknown class")
        if op == "call" and isinstance(t.meta, FuncInfo) and t.meta.name == "quote" and t.meta.cls is None:
            v = self.value(a[2][0][1], env)
            if isinstance(v, str):
                return "'" + v.replace("'", "''") + "'"
        if op == "call":
            return self.call_term(t, env)
        raise Undecided(op)

    def equal(self, x: Obj, y: Obj) -> bool:
        "Equality generated for data-classes: same class, and equal fields as of the most specific data-class."
        f = x.cls.find_method("__eq__")
        if f is not None:
            return bool(self.call(f, x.cls, {"self": x, [p.arg for p in f.args.args][1]: y}))
        if x.cls is not y.cls:
            return False
        d = next((c for c in x.cls.project_mro() if c.is_dataclass), None)
        names = {n for n, _, _, _ in d.dataclass_fields()} if d is not None else set()
        if d is None:
            raise Undecided(f"equality of {x.cls.name}")
        return all(x.get(n) == y.get(n) for n in names)

    def items(self, t: T, env: dict[T, object]) -> object:
        out: list = []
        for i in t.args[1]:
            self.item(i, env, out)
        if t.args[0] == "dict":
            return dict(out)
        return tuple(out) if t.args[0] == "tuple" else out

    def item(self, i: T, env: dict[T, object], out: list) -> None:
        if i.op == "item":
            out.append(self.value(i.args[0], env))
        elif i.op == "kv":
            out.append((self.value(i.args[0], env), self.value(i.args[1], env)))
        elif i.op == "if":
            for x in i.args[1] if self.truth(i.args[0], env) else i.args[2]:
                self.item(x, env, out)
        elif i.op == "splice":
            out.extend(self.value(i.args[0], env))  # type: ignore
        elif i.op == "for" and len(i.args) in (3, 5):
            for v in self.value(i.args[0], env):  # type: ignore
                e = dict(env)
                e[i.args[1]] = v
                for x in i.args[2]:
                    self.item(x, e, out)
                if len(i.args) == 5 and self.truth(i.args[4], e):
                    break
        else:
            raise Undecided(i.op)

    def call_term(self, t: T, env: dict[T, object]) -> object:
        name, recv, args = t.args[0], t.args[1], t.args[2]
        short = name.rsplit(".", 1)[-1]
        if recv is None and isinstance(t.meta, FuncInfo):
            return self.call(t.meta, None, {k: self.value(v, env) for k, v in args})
        if recv is None:
            vs = [self.value(v, env) for k, v in args if k.isdigit()]
            if name in ("max", "min"):
                xs = list(vs[0]) if len(vs) == 1 and isinstance(vs[0], (list, tuple)) else vs
                extra = {k: self.value(v, env) for k, v in args if not k.isdigit()}
                if not set(extra) <= {"default"}:
                    raise Undecided(name)
                try:
                    return (max if name == "max" else min)(xs, **extra)  # type: ignore
                except (TypeError, ValueError):
                    raise Raised(name)
            if name in ("int", "str", "bool", "abs") and len(vs) == 1:
                return {"int": lambda x: int(x), "str": self.text, "bool": bool, "abs": abs}[name](vs[0])  # type: ignore
            if name in MATH and vs and all(isinstance(x, (int, float)) for x in vs):
                return MATH[name](*vs)
            if name in ("sorted", "list", "tuple", "set", "frozenset", "reversed", "enumerate", "any", "all", "sum") and len(vs) == 1 and isinstance(vs[0], (list, tuple, dict, str)):
                xs = list(vs[0])
                if any(k != "0" for k, _ in args) or name in ("sorted", "set", "frozenset", "sum") and not all(isinstance(x, (str, int)) for x in xs):
                    raise Undecided(name)
                return {"sorted": sorted, "list": list, "tuple": tuple, "set": dict.fromkeys, "frozenset": dict.fromkeys, "reversed": lambda v: v[::-1], "enumerate": lambda v: list(enumerate(v)), "any": any, "all": all, "sum": sum}[name](xs)
            if name == "round" and len(vs) == 1:
                return round(vs[0])  # type: ignore
            if name == "type" and len(vs) == 1 and isinstance(vs[0], Obj):
                return Cls(vs[0].cls)
            if name in ("copy.copy", "copy.deepcopy") and vs:
                return vs[0]
            if name == "dataclasses.replace" and vs and isinstance(vs[0], Obj):
                changes = {k: self.value(v, env) for k, v in args if not k.isdigit()}
                return self.construct(vs[0].cls, [(n, changes.get(n, v)) for n, v in vs[0].attrs])
            if name == "issubclass" and len(vs) == 2 and isinstance(vs[0], Cls) and isinstance(vs[1], Cls) and isinstance(vs[0].ref, ClassInfo):
                return vs[0].ref.is_subclass_of(vs[1].ref)
            raise Undecided(name)
        if name == "()" and recv.op in ("func", "closure"):
            f = recv.args[0]
            e = dict(env)
            if recv.op == "closure":
                raise Undecided("closure")
            return self.call(f, None, {k: self.value(v, env) for k, v in args})
        r = self.value(recv, env)
        if isinstance(r, Cls) and isinstance(r.ref, ClassInfo) and name == "()":
            return self.construct(r.ref, [(k, self.value(v, env)) for k, v in args])
        if isinstance(r, Obj):
            f = r.cls.find_method(short)
            if name.startswith("super:") and isinstance(t.meta, FuncInfo):
                f = t.meta
            if f is not None:
                e = {k: self.value(v, env) for k, v in args}
                first = [p.arg for p in f.args.posonlyargs + f.args.args][:1]
                e[first[0] if first else "self"] = r
                return self.call(f, r.cls, e)
        if isinstance(r, dict) and short == "get":
            vs = [self.value(v, env) for _, v in args]
            return r.get(*vs)
        if isinstance(r, str) and name.startswith("."):
            vs = [self.value(v, env) for _, v in args]
            if short in ("startswith", "endswith", "lower", "upper", "strip", "lstrip", "rstrip", "split", "rsplit", "join", "isdigit", "partition", "rpartition", "removeprefix", "removesuffix", "replace", "casefold", "count", "find", "splitlines", "isalnum"):
                return getattr(r, short)(*vs)
        raise Undecided(name)


def constants(r) -> set[int]:
    "Integers that the result of a function is compared with or made of."
    from .terms import walk
    out: set[int] = set()
    for value, pc in r.returns:
        for t in [value, *pc]:
            for x in walk(t):
                if x.op == "const" and isinstance(x.args[0], int) and not isinstance(x.args[0], bool):
                    out.add(x.args[0])
    return out
