"Queries made through a database context: per dialect, the signature and the text of each query_one and query_all call."

from __future__ import annotations

import ast
from typing import Callable, Iterator, Optional

from .common import hierarchy, method_name
from .framework import AnalysisError, Ctx, events
from .interp import Result
from .program import ClassInfo, FuncInfo
from .sqltext import Hole, Variant, variants
from .terms import T, const, tmpl, walk
from .types import STR

DIALECTS = ("postgresql", "redshift", "mysql", "mssql", "oracle", "trino")
QUERY = {"query_one", "query_all"}
OPAQUE = QUERY | {"_query_all", "scope_id", "local_id", "compact_id", "quoted_id", "get_current_schema_stmt", "execute", "execute_all", "_execute", "_execute_all"}


class Query:
    def __init__(self, dialect: str, cls: ClassInfo, f: FuncInfo, event: T, r: Result) -> None:
        self.dialect, self.cls, self.f, self.event, self.r = dialect, cls, f, event, r
        args = dict(event.args[2])
        self.signature: Optional[T] = args.get("signature")
        self.statement: Optional[T] = args.get("statement")

    @property
    def opaque(self) -> bool:
        "The query is a parameter of a helper, which is analysed where the helper is called."
        return self.statement is None or self.statement.op == "param" or self.signature is None or self.signature.op == "param"

    def variants(self) -> list[Variant]:
        assert self.statement is not None
        return variants(self.statement)


def engine_class(ctx: Ctx, dialect: str, method: str) -> Optional[ClassInfo]:
    "Class an engine supplies for a role."
    for c in hierarchy(ctx.prog, "BaseEngine"):
        if c.module.name.split(".")[-2:-1] == [dialect] and method in c.methods:
            r = ctx.run(c.methods[method], c)
            v = r.value
            if v is not None and v.op == "class":
                return v.args[0]
            return None
    return None


def context_class(ctx: Ctx, dialect: str) -> Optional[ClassInfo]:
    for c in hierarchy(ctx.prog, "BaseContext"):
        if c.module.name.split(".")[-2:-1] == [dialect]:
            return c
    return None


def policy(ctx: Ctx, keep: Optional[Callable[[FuncInfo], bool]] = None):
    def inline(g: FuncInfo, recv: Optional[T]) -> bool:
        if g.name in OPAQUE or keep is not None and keep(g):
            return False
        if g.cls is None:
            return True
        root = next((k for k in g.cls.project_mro() if k.name in ("Explorer", "BaseContext", "BaseGenerator", "BaseConnection")), None)
        if root is None:
            return True
        # operations of the base interfaces are analysed where they are defined
        return not (g.name in root.methods) and not (root.name == "Explorer" and not g.name.startswith("_") and g.name in PUBLIC)

    inline.summary = texts  # type: ignore
    return inline


def texts(g: FuncInfo, bound: dict[str, T]) -> Optional[T]:
    "What a function makes of a text, however it is written; that it does so is C04."
    if g.cls is not None or g.parent is not None or not g.module.name.endswith("model.data_types"):
        return None
    args = list(bound.values())
    if g.name == "quote" and len(args) == 1:
        return tmpl(["'", doubled(args[0], "'"), "'"])
    if g.name == "escape_like" and len(args) == 2 and args[1].op == "const":
        t, e = doubled(args[0], "'"), args[1].args[0]
        for c in (e, "_", "%"):
            t = replaced(t, c, f"{e}{c}")
        return t
    return None


def doubled(t: T, c: str) -> T:
    return replaced(t, c, c + c)


def replaced(t: T, old: str, new: str) -> T:
    if t.op == "const" and isinstance(t.args[0], str):
        return const(t.args[0].replace(old, new))
    return T("strop", ("replace", t, (const(old), const(new))), STR)


PUBLIC = {
    "has_constraints", "has_column_extended_info", "get_columns", "get_table_primary_key", "get_unique_constraints", "get_referential_constraints",
    "get_table_description", "get_struct",
}


def implementations(c: ClassInfo, name: str) -> Iterator[FuncInfo]:
    "The method of a class, and those of its bases that it delegates to."
    for k in c.project_mro():
        if name in k.methods:
            f = k.methods[name]
            yield f
            if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == name and isinstance(n.func.value, ast.Call) for n in ast.walk(f.node)):
                return


def queries(ctx: Ctx, keep: Optional[Callable[[FuncInfo], bool]] = None) -> Iterator[Query]:
    """
    :param keep: Tells which more functions are not to be inlined.
    """
    inline = policy(ctx, keep)
    for dialect in DIALECTS:
        classes = [engine_class(ctx, dialect, "get_explorer_type"), context_class(ctx, dialect)]
        for c in classes:
            if c is None:
                raise AnalysisError(f"explorer or context of {dialect} not found")
            root = next(k for k in c.project_mro() if k.name in ("Explorer", "BaseContext"))
            # helpers are analysed where they are called
            for name in list(root.methods) + sorted(PUBLIC):
                for f in implementations(c, name):
                    yield from of_function(ctx, dialect, c, f, inline)
    # functions that query through a context of any dialect
    for f in ctx.prog.functions():
        if f.parent is None and outside(ctx, f):
            yield from of_function(ctx, "*", f.cls, f, inline)


def outside(ctx: Ctx, f: FuncInfo) -> bool:
    if f.cls is not None and any(k.name in ("Explorer", "BaseContext") for k in f.cls.project_mro()):
        return False
    return any(isinstance(n, ast.Attribute) and n.attr in QUERY for n in ast.walk(f.node))


def of_function(ctx: Ctx, dialect: str, c: Optional[ClassInfo], f: FuncInfo, inline) -> Iterator[Query]:
    r = ctx.run(f, c, inline=inline) if c is not None else ctx.run(f, None, inline=inline)
    for e in events(r):
        if e.op == "call" and method_name(e) in QUERY:
            yield Query(dialect, c if c is not None else f.cls, f, e, r)  # type: ignore
