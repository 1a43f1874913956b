"""
Program model: modules, classes, functions, imports and class hierarchy of the analysed package.

Built from the source text of the working tree on every run with the standard `ast` module; nothing of the analysed
package is imported or executed.
"""

from __future__ import annotations

import ast
import os
from dataclasses import dataclass, field
from typing import Iterator, Optional

from .inliner import inline
from .normalise import normalise


class AnalysisError(Exception):
    "The analysis cannot give an answer (vanished anchor, unparseable source)."


@dataclass(eq=False)
class FuncInfo:
    name: str
    module: "Module"
    cls: Optional["ClassInfo"]
    node: ast.AST  # FunctionDef | AsyncFunctionDef | Lambda
    parent: Optional["FuncInfo"] = None

    @property
    def qualname(self) -> str:
        if self.parent is not None:
            return f"{self.parent.qualname}.<locals>.{self.name}"
        if self.cls is not None:
            return f"{self.cls.qualname}.{self.name}"
        return f"{self.module.name}.{self.name}"

    @property
    def short(self) -> str:
        q = self.qualname
        return q[len("pysqlsync."):] if q.startswith("pysqlsync.") else q

    @property
    def is_async(self) -> bool:
        return isinstance(self.node, ast.AsyncFunctionDef)

    @property
    def decorators(self) -> list[str]:
        return [dotted(d.func if isinstance(d, ast.Call) else d) or "?" for d in getattr(self.node, "decorator_list", [])]

    def has_decorator(self, *names: str) -> bool:
        return any(d == n or d.endswith("." + n) for d in self.decorators for n in names)

    @property
    def is_property(self) -> bool:
        return self.has_decorator("property", "cached_property")

    @property
    def is_static(self) -> bool:
        return self.has_decorator("staticmethod")

    @property
    def is_classmethod(self) -> bool:
        return self.has_decorator("classmethod")

    @property
    def is_abstract(self) -> bool:
        return self.has_decorator("abstractmethod")

    @property
    def is_overload(self) -> bool:
        return self.has_decorator("overload")

    @property
    def args(self) -> ast.arguments:
        return self.node.args  # type: ignore

    @property
    def is_generator(self) -> bool:
        for n in walk_own(self.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False

    def loc(self, node: Optional[ast.AST] = None) -> str:
        n = node if node is not None else self.node
        return f"{self.module.relpath}:{getattr(n, 'lineno', 0)}"

    def __repr__(self) -> str:
        return f"<fn {self.short}>"


@dataclass(eq=False)
class ClassInfo:
    name: str
    module: "Module"
    node: ast.ClassDef
    methods: dict[str, FuncInfo] = field(default_factory=dict)
    annots: dict[str, ast.expr] = field(default_factory=dict)
    values: dict[str, ast.expr] = field(default_factory=dict)
    bases: list[object] = field(default_factory=list)  # ClassInfo or dotted str
    base_exprs: list[ast.expr] = field(default_factory=list)
    subclasses: list["ClassInfo"] = field(default_factory=list)
    _mro: Optional[list[object]] = None
    type_params: list[str] = field(default_factory=list)
    outer: Optional[FuncInfo] = None

    @property
    def qualname(self) -> str:
        return f"{self.module.name}.{self.name}"

    @property
    def short(self) -> str:
        q = self.qualname
        return q[len("pysqlsync."):] if q.startswith("pysqlsync.") else q

    def mro(self) -> list[object]:
        "C3 linearization over project classes; external bases appear as dotted names."
        if self._mro is None:
            seqs = [list(b.mro()) if isinstance(b, ClassInfo) else [b] for b in self.bases]
            seqs.append(list(self.bases))
            result: list[object] = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    cand = seqs[0][0]
                result.append(cand)
                seqs = [[x for x in s if x is not cand and x != cand] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = result
        return self._mro

    def project_mro(self) -> list["ClassInfo"]:
        return [c for c in self.mro() if isinstance(c, ClassInfo)]

    def find_method(self, name: str, after: Optional["ClassInfo"] = None) -> Optional[FuncInfo]:
        mro = self.project_mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else after.project_mro()[1:]
        for c in mro:
            if name in c.methods:
                return c.methods[name]
            if name in c.values and after is None:
                return None
        return None

    def find_annot(self, name: str) -> Optional[tuple[ast.expr, "Module", "ClassInfo"]]:
        for c in self.project_mro():
            if name in c.annots:
                return c.annots[name], c.module, c
        return None

    def is_subclass_of(self, other: object) -> bool:
        if isinstance(other, str):
            return any(
                (isinstance(c, str) and (c == other or c.endswith("." + other)))
                or (isinstance(c, ClassInfo) and (c.name == other or c.qualname == other))
                for c in self.mro()
            )
        return other in self.mro()

    def all_subclasses(self) -> list["ClassInfo"]:
        out: list[ClassInfo] = []
        work = list(self.subclasses)
        while work:
            c = work.pop(0)
            if c not in out:
                out.append(c)
                work.extend(c.subclasses)
        return out

    @property
    def decorators(self) -> list[str]:
        return [dotted(d.func if isinstance(d, ast.Call) else d) or "?" for d in self.node.decorator_list]

    @property
    def is_dataclass(self) -> bool:
        return any(d == "dataclass" or d.endswith(".dataclass") for d in self.decorators)

    def dataclass_fields(self) -> list[tuple[str, ast.expr, Optional[ast.expr], "Module"]]:
        "Fields in constructor order, base first."
        out: dict[str, tuple[str, ast.expr, Optional[ast.expr], Module]] = {}
        for c in reversed(self.project_mro()):
            if c.is_dataclass:
                for n, a in c.annots.items():
                    if dotted(a if not isinstance(a, ast.Subscript) else a.value) in ("ClassVar", "typing.ClassVar"):
                        continue
                    out[n] = (n, a, c.values.get(n), c.module)
        return list(out.values())

    def loc(self) -> str:
        return f"{self.module.relpath}:{self.node.lineno}"

    def __repr__(self) -> str:
        return f"<class {self.short}>"


@dataclass(eq=False)
class Module:
    name: str
    path: str
    relpath: str
    tree: ast.Module
    is_package: bool
    imports: dict[str, str] = field(default_factory=dict)  # local name -> dotted target
    classes: dict[str, ClassInfo] = field(default_factory=dict)
    functions: dict[str, FuncInfo] = field(default_factory=dict)
    variables: dict[str, ast.expr] = field(default_factory=dict)
    var_annots: dict[str, ast.expr] = field(default_factory=dict)
    all_functions: list[FuncInfo] = field(default_factory=list)  # including nested and methods

    def package(self) -> str:
        return self.name if self.is_package else self.name.rpartition(".")[0]


def dotted(node: Optional[ast.AST]) -> Optional[str]:
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return f"{b}.{node.attr}" if b is not None else None
    return None


def walk_own(node: ast.AST) -> Iterator[ast.AST]:
    "Walks a function body without entering nested functions, lambdas or classes."
    work: list[ast.AST] = list(ast.iter_child_nodes(node))
    while work:
        n = work.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        work.extend(ast.iter_child_nodes(n))


class Program:
    def __init__(self, root: str, package: str = "pysqlsync", overrides: Optional[dict[str, str]] = None) -> None:
        self.root = root
        self.package = package
        self.modules: dict[str, Module] = {}
        self.overrides = overrides or {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisError(f"package directory not found: {base}")
        for dirpath, dirnames, filenames in os.walk(base):
            dirnames[:] = sorted(d for d in dirnames if d != "__pycache__")
            for fn in sorted(filenames):
                if fn.endswith(".py"):
                    self._load(os.path.join(dirpath, fn))
        inline({m.name: m.tree for m in self.modules.values()})
        for m in self.modules.values():
            m.tree = normalise(m.tree)
            self._collect_imports(m, m.tree)
            self._collect_body(m, m.tree.body, None)
        self._link()

    def _load(self, path: str) -> None:
        rel = os.path.relpath(path, self.root)
        parts = rel[:-3].split(os.sep)
        is_pkg = parts[-1] == "__init__"
        if is_pkg:
            parts = parts[:-1]
        name = ".".join(parts)
        if rel in self.overrides:
            text = self.overrides[rel]
        else:
            with open(path, encoding="utf-8") as f:
                text = f.read()
        try:
            tree = normalise(ast.parse(text, filename=rel))
        except SyntaxError as e:
            raise AnalysisError(f"cannot parse {rel}: {e}")
        m = Module(name, path, rel, tree, is_pkg)
        self.modules[name] = m

    def _collect_imports(self, m: Module, tree: ast.AST) -> None:
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        top = a.name.split(".")[0]
                        m.imports[top] = top
            elif isinstance(n, ast.ImportFrom):
                base = self.resolve_from(m, n)
                for a in n.names:
                    m.imports[a.asname or a.name] = f"{base}.{a.name}" if base else a.name

    @staticmethod
    def resolve_from(m: Module, n: ast.ImportFrom) -> str:
        if n.level == 0:
            return n.module or ""
        pkg = m.package().split(".")
        if n.level > 1:
            pkg = pkg[: -(n.level - 1)]
        return ".".join(pkg + ([n.module] if n.module else []))

    def _collect_body(self, m: Module, body: list[ast.stmt], cls: Optional[ClassInfo]) -> None:
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(st.name, m, cls, st)
                m.all_functions.append(f)
                if not f.is_overload:
                    if cls is not None:
                        if not f.has_decorator("setter", "deleter"):
                            cls.methods[st.name] = f
                    else:
                        m.functions[st.name] = f
                self._collect_nested(m, f)
            elif isinstance(st, ast.ClassDef):
                c = ClassInfo(st.name, m, st)
                m.classes[st.name] = c
                self._collect_body(m, st.body, c)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        (cls.values if cls is not None else m.variables)[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if cls is not None:
                    cls.annots[st.target.id] = st.annotation
                    if st.value is not None:
                        cls.values[st.target.id] = st.value
                else:
                    m.var_annots[st.target.id] = st.annotation
                    if st.value is not None:
                        m.variables[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                for sub in (getattr(st, "body", []), getattr(st, "orelse", []), getattr(st, "finalbody", [])):
                    self._collect_body(m, sub, cls)
                for h in getattr(st, "handlers", []):
                    self._collect_body(m, h.body, cls)

    def _collect_nested(self, m: Module, f: FuncInfo) -> None:
        for n in walk_own(f.node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                g = FuncInfo(n.name, m, f.cls, n, parent=f)
                m.all_functions.append(g)
                self._collect_nested(m, g)

    def _link(self) -> None:
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    expr = b.value if isinstance(b, ast.Subscript) else b
                    c.base_exprs.append(b)
                    if isinstance(b, ast.Subscript) and (dotted(b.value) or "").split(".")[-1] == "Generic":
                        sl = b.slice.elts if isinstance(b.slice, ast.Tuple) else [b.slice]
                        c.type_params = [dotted(s) or "?" for s in sl]
                    r = self.resolve_expr(m, expr)
                    if isinstance(r, ClassInfo):
                        c.bases.append(r)
                        r.subclasses.append(c)
                    else:
                        c.bases.append(r if isinstance(r, str) else (dotted(expr) or "?"))

    # -- name resolution ------------------------------------------------------------------------------------------

    def resolve_dotted(self, name: str) -> object:
        "Resolves an absolute dotted name to Module, ClassInfo, FuncInfo, ('var', module, name) or the name itself."
        seen: set[str] = set()
        while True:
            if name in seen:
                return name
            seen.add(name)
            if name in self.modules:
                return self.modules[name]
            mod, _, attr = name.rpartition(".")
            # find longest module prefix
            prefix, rest = mod, [attr]
            while prefix and prefix not in self.modules:
                prefix, _, a = prefix.rpartition(".")
                rest.insert(0, a)
            if not prefix:
                return name
            m = self.modules[prefix]
            head = rest[0]
            if head in m.classes:
                c = m.classes[head]
                if len(rest) == 1:
                    return c
                if len(rest) == 2 and rest[1] in c.methods:
                    return c.methods[rest[1]]
                return ("classattr", c, rest[1]) if len(rest) == 2 else name
            if head in m.functions and len(rest) == 1:
                return m.functions[head]
            if head in m.imports:
                name = ".".join([m.imports[head]] + rest[1:])
                continue
            if head in m.variables and len(rest) == 1:
                return ("var", m, head)
            return name

    def resolve_name(self, m: Module, name: str) -> object:
        if name in m.classes:
            return m.classes[name]
        if name in m.functions:
            return m.functions[name]
        if name in m.imports:
            return self.resolve_dotted(m.imports[name])
        if name in m.variables or name in m.var_annots:
            return ("var", m, name)
        return name  # builtin or unknown

    def resolve_expr(self, m: Module, expr: ast.AST) -> object:
        d = dotted(expr)
        if d is None:
            return None
        head, *rest = d.split(".")
        r = self.resolve_name(m, head)
        for a in rest:
            if isinstance(r, Module):
                r = self.resolve_dotted(f"{r.name}.{a}")
            elif isinstance(r, ClassInfo):
                f = r.find_method(a)
                r = f if f is not None else ("classattr", r, a)
            elif isinstance(r, str):
                r = f"{r}.{a}"
            else:
                return None
        return r

    # -- lookup by role -------------------------------------------------------------------------------------------

    def classes(self) -> Iterator[ClassInfo]:
        for m in self.modules.values():
            yield from m.classes.values()

    def find_class(self, name: str, required: bool = True) -> ClassInfo:
        cands = [c for c in self.classes() if c.name == name or c.qualname == name]
        if len(cands) == 1:
            return cands[0]
        if not required and not cands:
            return None  # type: ignore
        raise AnalysisError(f"anchor class `{name}`: expected exactly one definition, found {len(cands)}")

    def find_func(self, qualname: str, required: bool = True) -> FuncInfo:
        for m in self.modules.values():
            for f in m.all_functions:
                if (f.short == qualname or f.qualname == qualname) and not f.is_overload:
                    return f
        cands = [
            f
            for m in self.modules.values()
            for f in m.all_functions
            if f.qualname.endswith("." + qualname) and not f.is_overload and f.parent is None
        ]
        if len(cands) == 1:
            return cands[0]
        if not required:
            return None  # type: ignore
        raise AnalysisError(f"anchor function `{qualname}` not found ({len(cands)} candidates)")

    def functions(self) -> Iterator[FuncInfo]:
        for m in self.modules.values():
            yield from (f for f in m.all_functions if not f.is_overload)

    def method(self, cls: ClassInfo, name: str) -> FuncInfo:
        f = cls.find_method(name)
        if f is None:
            raise AnalysisError(f"anchor method `{cls.short}.{name}` not found")
        return f
