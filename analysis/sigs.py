"Signatures: nature of a function, parameter lists and call binding."

from __future__ import annotations

import ast
from dataclasses import dataclass
from typing import Optional

from .program import ClassInfo, FuncInfo, Program

DISPATCHERS = ("thread_dispatch",)


def nature(f: FuncInfo) -> str:
    "property | coroutine | asyncgen | sync"
    if f.is_property:
        return "property"
    if isinstance(f.node, ast.AsyncFunctionDef):
        return "asyncgen" if f.is_generator else "coroutine"
    if f.has_decorator(*DISPATCHERS):
        return "coroutine"
    return "sync"


@dataclass
class Sig:
    positional: list[str]
    posonly: set[str]
    kwonly: list[str]
    optional: set[str]
    vararg: bool
    kwarg: bool
    annots: dict[str, Optional[ast.expr]]


def sig_of(f: FuncInfo, bound: bool = True) -> Sig:
    a = f.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    opt: set[str] = set()
    for x, _ in zip(reversed(a.posonlyargs + a.args), a.defaults):
        opt.add(x.arg)
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            opt.add(x.arg)
    if bound and not f.is_static and f.cls is not None and f.parent is None:
        pos = pos[1:]
    ann = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
    # PEP 484: a parameter whose name starts with two underscores is positional-only
    po = {x.arg for x in a.posonlyargs} | {p for p in pos if p.startswith("__") and not p.endswith("__")}
    return Sig(pos, po, [x.arg for x in a.kwonlyargs], opt, a.vararg is not None, a.kwarg is not None, ann)


def binds(s: Sig, npos: int, kws: list[str], star: bool = False, starstar: bool = False) -> Optional[str]:
    "Reason why a call with these arguments is not accepted, if it is not."
    if npos > len(s.positional) and not s.vararg:
        return f"{npos} positional arguments given, {len(s.positional)} accepted"
    taken = set(s.positional[:npos])
    for k in kws:
        if k in taken:
            return f"argument `{k}` given twice"
        if (k not in s.positional or k in s.posonly) and k not in s.kwonly and not s.kwarg:
            return f"unexpected keyword argument `{k}`"
        taken.add(k)
    if not star and not starstar:
        for p in s.positional + s.kwonly:
            if p not in taken and p not in s.optional:
                return f"missing argument `{p}`"
    return None


def call_shape(c: ast.Call) -> tuple[int, list[str], bool, bool]:
    star = any(isinstance(a, ast.Starred) for a in c.args)
    npos = len([a for a in c.args if not isinstance(a, ast.Starred)])
    return npos, [k.arg for k in c.keywords if k.arg is not None], star, any(k.arg is None for k in c.keywords)


def constructor(c: ClassInfo, prog: Program) -> Optional[Sig]:
    init = c.find_method("__init__")
    if init is not None and not any(k.is_dataclass and prog_index(c, k) < prog_index(c, init.cls) for k in c.project_mro()):
        return sig_of(init)
    fields = c.dataclass_fields()
    if fields:
        names = [f[0] for f in fields]
        opt = {f[0] for f in fields if f[2] is not None}
        return Sig(names, set(), [], opt, False, False, {f[0]: f[1] for f in fields})
    return None


def prog_index(c: ClassInfo, k: Optional[ClassInfo]) -> int:
    m = c.project_mro()
    return m.index(k) if k in m else len(m)
