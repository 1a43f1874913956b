"""
Model of the catalog views that discovery queries read: keys, the attributes that identify the owning object and schema, and the
kind of name or identifier each attribute holds. A `Graph` closes the equalities of a query over these keys and decides which
relations of the query are confined to the requested object and which rows are determined by which.
"""

from __future__ import annotations

from typing import Callable, Iterable, Iterator, Optional

from .select import Item, Relation, Select, Tok, columns_in, conjuncts, ident, unparen
from .sqltext import Hole
from .terms import T


class View:
    def __init__(self, columns: str, keys: str, owner: str = "", schema: str = "", link: str = "", same: str = "") -> None:
        "`columns`: name:domain pairs; `owner`: attributes that identify the owning object; `schema`: the attribute with its schema; `link`: attributes with which a row refers to the object that owns it"
        self.columns = dict((c.split(":") if ":" in c else (c, "")) for c in columns.split())
        self.keys = [frozenset(k.split("+")) for k in keys.split()]
        self.owner = [frozenset(k.split("+")) for k in owner.split()]
        self.schema = frozenset(schema.split())
        self.link = [frozenset(k.split("+")) for k in link.split()]
        self.same = [tuple(s.split("=")) for s in same.split()]


CAT = "table_catalog:catalog table_schema:schema table_name:table"
CON = "constraint_catalog:catalog constraint_schema:schema constraint_name:constraint"
VIEWS: dict[str, View] = {
    "information_schema.tables": View(CAT + " table_type table_comment", "table_schema+table_name", "table_schema+table_name", "table_schema"),
    "information_schema.columns": View(
        CAT + " column_name:column ordinal_position:position column_default is_nullable data_type character_maximum_length numeric_precision numeric_scale datetime_precision column_type extra column_comment",
        "table_schema+table_name+column_name table_schema+table_name+ordinal_position", "table_schema+table_name", "table_schema"),
    "information_schema.table_constraints": View(
        CAT + " " + CON + " constraint_type", "constraint_schema+constraint_name+table_name", "table_schema+table_name", "table_schema", same="table_schema=constraint_schema"),
    "information_schema.key_column_usage": View(
        CAT + " " + CON + " column_name:column ordinal_position:position position_in_unique_constraint:position referenced_table_schema:schema referenced_table_name:table referenced_column_name:column",
        "constraint_schema+constraint_name+table_name+ordinal_position constraint_schema+constraint_name+table_name+column_name", "table_schema+table_name", "table_schema", same="table_schema=constraint_schema"),
    "information_schema.referential_constraints": View(
        CON + " unique_constraint_catalog:catalog unique_constraint_schema:schema unique_constraint_name:constraint table_name:table referenced_table_name:table",
        "constraint_schema+constraint_name", "constraint_schema+table_name", "constraint_schema", "constraint_schema+constraint_name"),
    "pg_catalog.pg_namespace": View("oid:nsp nspname:schema", "oid nspname", "oid", "oid"),
    "pg_catalog.pg_class": View("oid:cls relname:table relnamespace:nsp relkind", "oid relname+relnamespace", "oid", "relnamespace"),
    "pg_catalog.pg_type": View("oid:typ typname:table typnamespace:nsp typelem:typ typrelid:cls typtype", "oid typname+typnamespace", "oid", "typnamespace"),
    "pg_catalog.pg_attribute": View(
        "attrelid:cls attname:column attnum:position atttypid:typ atttypmod attnotnull attndims attidentity atthasdef", "attrelid+attnum attrelid+attname", "attrelid", "", "attrelid"),
    "pg_catalog.pg_attrdef": View("oid adrelid:cls adnum:position adbin", "oid adrelid+adnum", "adrelid", "", "adrelid"),
    "pg_catalog.pg_description": View("objoid:* classoid objsubid:position description", "objoid+objsubid", "objoid", "", "objoid"),
    "pg_catalog.pg_constraint": View(
        "oid:con conname:constraint connamespace:nsp contype conrelid:cls confrelid:cls conkey:positions confkey:positions", "oid", "conrelid", "", "conrelid"),
    "pg_catalog.pg_enum": View("oid enumtypid:typ enumsortorder enumlabel", "oid enumtypid+enumlabel", "enumtypid", "", "enumtypid"),
    "sys.schemas": View("schema_id:nsp name:schema", "schema_id name", "schema_id", "schema_id"),
    "sys.tables": View("object_id:cls name:table schema_id:nsp is_ms_shipped", "object_id name+schema_id", "object_id", "schema_id"),
    "sys.columns": View("object_id:cls column_id:position name:column is_identity default_object_id:def is_nullable", "object_id+column_id object_id+name", "object_id", "", "object_id"),
    "sys.default_constraints": View("object_id:def parent_object_id:cls name:constraint schema_id:nsp definition", "object_id", "parent_object_id", "", "parent_object_id object_id"),
}
for prefix in ("dba", "all", "user"):
    own = "" if prefix == "user" else "owner+"
    col = "" if prefix == "user" else "owner:schema "
    sch = "" if prefix == "user" else "owner"
    r_own = "r_owner:schema "
    VIEWS[f"{prefix}_tables"] = View(col + "table_name:table tablespace_name status temporary secondary dropped read_only", f"{own}table_name", f"{own}table_name", sch)
    VIEWS[f"{prefix}_tab_comments"] = View(col + "table_name:table table_type comments", f"{own}table_name", f"{own}table_name", sch)
    VIEWS[f"{prefix}_tab_columns"] = VIEWS[f"{prefix}_tab_cols"] = View(
        col + "table_name:table column_name:column column_id:position data_type data_type_owner data_length data_precision data_scale nullable data_default char_length identity_column",
        f"{own}table_name+column_name {own}table_name+column_id", f"{own}table_name", sch)
    VIEWS[f"{prefix}_col_comments"] = View(col + "table_name:table column_name:column comments", f"{own}table_name+column_name", f"{own}table_name", sch)
    VIEWS[f"{prefix}_constraints"] = View(
        ("owner:schema " + r_own) + "table_name:table constraint_name:constraint constraint_type r_constraint_name:constraint status", "owner+constraint_name", f"{own}table_name", sch, "owner+constraint_name")
    VIEWS[f"{prefix}_cons_columns"] = View(
        "owner:schema table_name:table constraint_name:constraint column_name:column position:position", "owner+constraint_name+position owner+constraint_name+column_name", f"{own}table_name", sch, "owner+constraint_name")

ALIASES = {**{k.split(".", 1)[1]: k for k in VIEWS if k.startswith("pg_catalog.")}, **{"sys." + k: k for k in VIEWS if k[:4] in ("dba_", "all_", "user")}}
CURRENT = {"current_schema", "database", "schema", "schema_name", "sys_context"}


class Value:
    "What an attribute is compared to: a requested `schema`, `table` or `column` name, the `current` schema, a constant, or something else."

    def __init__(self, kind: str, token: Optional[Tok] = None, term: Optional[T] = None) -> None:
        self.kind, self.token, self.term = kind, token, term

    def __repr__(self) -> str:
        return self.kind


class Rel:
    def __init__(self, uid: str, relation: Relation, view: Optional[View], outer: bool) -> None:
        self.uid, self.relation, self.view, self.outer = uid, relation, view, outer
        self.lateral: list[str] = []
        self.attrs: dict[str, str] = {}  # attributes of a function result: name -> source attribute

    def __repr__(self) -> str:
        return f"{self.relation.name} AS {self.uid}"


Attr = tuple  # (relation uid, column)


class Graph:
    def __init__(self, query: Select, request: Callable[[T], str], current: Callable[[T], bool], unique_names: bool = False) -> None:
        """
        `request` gives the kind of a requested name that a term stands for (schema, table, column), or an empty string;
        `unique_names` states that constraint names are unique in a schema (and not only in a table).
        """
        self.request, self.current, self.unique_names = request, current, unique_names
        self.escape: Optional[str] = None
        self.rels: dict[str, Rel] = {}
        self.problems: list[tuple[str, str]] = []
        self.unknown: list[str] = []
        self.parent: dict[Attr, Attr] = {}
        self.values: list[tuple[Attr, Value, bool]] = []
        self.weak: dict[str, list[tuple[Attr, Attr]]] = {}
        self.equal: list[tuple[Attr, Attr]] = []
        self.excluded: list[tuple[Attr, Tok, Optional[str]]] = []
        self.filters: list[tuple[list[Tok], dict[str, str]]] = []
        self.prefixes: list[tuple[Attr, Value]] = []
        self.mapping: dict[str, dict[str, Optional[Attr]]] = {}
        self._add(query, "", False)
        for r in self.rels.values():
            for a, b in r.view.same if r.view else ():
                self._union((r.uid, a), (r.uid, b))
        self._solve()

    # -- building
    def _add(self, q: Select, prefix: str, outer: bool) -> dict[str, str]:
        scope: dict[str, str] = {}
        todo: list[tuple[Relation, Optional[str], bool]] = []
        for rel in q.relations:
            weak = outer or rel.kind in ("left", "full")
            if rel.kind in ("right", "full"):
                self.unknown.append(f"{rel.kind} join")
            uid = prefix + rel.alias
            if rel.sub is not None:
                inner = self._add(rel.sub, uid + ".", weak)
                names: dict[str, Optional[Attr]] = {}
                for i in rel.sub.items:
                    n = i.name
                    if n:
                        names[n.lower()] = self._attr(i.expr, inner)
                self.mapping[uid] = names
                scope[rel.alias] = uid
            else:
                name = ALIASES.get(rel.name, rel.name)
                r = Rel(uid, rel, VIEWS.get(name), weak)
                if rel.args is not None and name == "unnest":
                    for pos, a in enumerate(rel.args):
                        src = self._attr(a, scope)
                        if src:
                            r.lateral.append(src[0])
                            col = rel.columns[pos] if pos < len(rel.columns) else "unnest"
                            r.attrs[col] = src[1]
                elif r.view is None:
                    self.unknown.append(f"relation {rel.name}")
                self.rels[uid] = r
                scope[rel.alias] = uid
            todo.append((rel, uid if rel.sub is None else None, weak))
        for rel, uid2, weak in todo:
            for c in rel.on:
                self._condition(c, scope, uid2 if weak and rel.kind in ("left", "full") else None, outer)
        for c in q.where:
            self._condition(c, scope, None, outer)
        return scope

    def _attr(self, toks: list[Tok], scope: dict[str, str]) -> Optional[Attr]:
        toks = unparen(toks)
        if not toks or any(t.kind not in ("word", "qid") and not t.is_op(".") for t in toks):
            return None
        if len(toks) == 1:
            col = ident(toks[0]).lower()
            hits = []
            for alias, uid in scope.items():
                if uid in self.mapping:
                    if col in self.mapping[uid]:
                        return self.mapping[uid][col]
                    continue
                r = self.rels[uid]
                if r.view is not None and col in r.view.columns or col in r.attrs:
                    hits.append((uid, col))
            if hits:
                return hits[0]
            if len(scope) == 1:
                return (next(iter(scope.values())), col)
            return None
        if len(toks) in (3, 5) and toks[-2].is_op("."):
            alias, col = ident(toks[-3]).lower(), ident(toks[-1]).lower()
            uid = scope.get(alias)
            if uid is None:
                return None
            if uid in self.mapping:
                return self.mapping[uid].get(col)
            return (uid, col)
        return None

    def domain(self, a: Attr) -> str:
        r = self.rels.get(a[0])
        if r is None:
            return ""
        if a[1] in r.attrs:
            return "position" if r.attrs[a[1]] in ("conkey", "confkey") else ""
        return r.view.columns.get(a[1], "") if r.view else ""

    def _value(self, toks: list[Tok]) -> Value:
        toks = unparen(toks)
        if len(toks) == 2 and toks[0].is_word("n") and toks[1].kind == "str":
            toks = toks[1:]
        if len(toks) == 1:
            t = toks[0]
            if t.kind == "str":
                if len(t.parts) == 1 and isinstance(t.parts[0], Hole):
                    return Value(self.request(t.parts[0].term) or "other", t, t.parts[0].term)
                return Value("const" if not t.parts or len(t.parts) == 1 and isinstance(t.parts[0], str) else "other", t)
            if t.kind == "num":
                return Value("const", t)
            if t.kind == "hole" and isinstance(t.parts[0], Hole):
                if self.current(t.parts[0].term):
                    return Value("current", t, t.parts[0].term)
                return Value(self.request(t.parts[0].term) or "other", t, t.parts[0].term)
        if len(toks) >= 3 and toks[0].kind == "word" and toks[1].is_op("(") and toks[-1].is_op(")"):
            f, args = toks[0].low, toks[2:-1]
            if f in ("current_schema", "database", "schema", "schema_name") and not args:
                return Value("current")
            if f == "sys_context" and [t.text.strip("'").upper() for t in args if t.kind == "str"] == ["USERENV", "CURRENT_SCHEMA"]:
                return Value("current")
            if f == "schema_id":
                v = self._value(args) if args else Value("current")
                return Value("schemaid:" + v.kind, v.token, v.term)
            if f in ("upper", "lower", "trim", "nullif", "coalesce"):
                return Value("other")
        if toks and toks[0].is_word("current_schema") and len(toks) == 1:
            return Value("current")
        return Value("other")

    def _condition(self, toks: list[Tok], scope: dict[str, str], weak: Optional[str], outer: bool) -> None:
        toks = unparen(toks)
        depth = 0
        top = []
        for i, t in enumerate(toks):
            depth += t.is_op("(") - t.is_op(")")
            if depth == 0 and t.is_op("="):
                top.append(i)
        if len(top) == 1 and not any(t.is_word("or", "not", "case") for t in toks):
            left, right = toks[: top[0]], toks[top[0] + 1 :]
            a, b = self._attr(left, scope), self._attr(right, scope)
            if a and b:
                if self.domain(a) and self.domain(b) and self.domain(a) != self.domain(b) and "*" not in (self.domain(a), self.domain(b)):
                    self.problems.append(("join", f"{a[0]}.{a[1]} ({self.domain(a)}) is compared to {b[0]}.{b[1]} ({self.domain(b)})"))
                elif weak:
                    self.weak.setdefault(weak, []).append((a, b))
                else:
                    self._union(a, b)
                    self.equal.append((a, b))
                return
            if a or b:
                attr, v = (a, self._value(right)) if a else (b, self._value(left))
                assert attr is not None
                dom = self.domain(attr)
                if v.kind.startswith("schemaid:"):
                    ok = dom == "nsp"
                    v = Value(v.kind.split(":")[1], v.token, v.term)
                    kinds = ("schema", "current")
                else:
                    kinds = {"schema": ("schema", "current"), "table": ("table",), "column": ("column",)}.get(dom, ())
                    ok = v.kind in kinds
                if v.kind in ("schema", "table", "column", "current"):
                    if not ok or v.kind not in kinds:
                        self.problems.append(("pin", f"{attr[0]}.{attr[1]} ({dom or 'no name'}) is compared to the requested {v.kind}"))
                        return
                self.values.append((attr, v, bool(weak) or outer))
            return
        # LIKE with a prefix
        words = [i for i, t in enumerate(toks) if t.is_word("like")]
        if len(words) == 1 and toks[words[0] - 1].is_word("not"):
            a = self._attr(toks[: words[0] - 1], scope)
            rest = toks[words[0] + 1 :]
            if a and rest and rest[0].kind == "str" and not weak and not outer:
                self.excluded.append((a, rest[0], rest[2].text.strip("'") if len(rest) == 3 and rest[1].is_word("escape") else None))
        if not words and not weak:
            self.filters.append((toks, scope))
        if len(words) == 1 and not toks[words[0] - 1].is_word("not"):
            a = self._attr(toks[: words[0]], scope)
            rest = toks[words[0] + 1 :]
            if a and rest and rest[0].kind == "str" and not weak and not outer:
                self.prefixes.append((a, Value("pattern", rest[0])))
                self.escape = rest[2].text.strip("'") if len(rest) == 3 and rest[1].is_word("escape") else None

    # -- solving
    def find(self, a: Attr) -> Attr:
        while a in self.parent:
            a = self.parent[a]
        return a

    def _union(self, a: Attr, b: Attr) -> None:
        x, y = self.find(a), self.find(b)
        if x != y:
            self.parent[x] = y

    def _solve(self) -> None:
        self.pinned: dict[Attr, str] = {}
        self.consts: set[Attr] = set()
        for a, v, weak in self.values:
            if weak:
                self.weak.setdefault(a[0], []).append((a, ("", "const")))
                continue
            if v.kind in ("schema", "table", "column", "current"):
                self.pinned[self.find(a)] = v.kind
            elif v.kind == "const":
                self.consts.add(self.find(a))
        changed = True
        while changed:
            changed = False
            for r in self.rels.values():
                if r.view is None or r.outer:
                    continue
                for k in self.keys(r):
                    if all(self.find((r.uid, c)) in self.pinned for c in k):
                        for c in r.view.columns:
                            x = self.find((r.uid, c))
                            if x not in self.pinned:
                                self.pinned[x] = "derived"
                                changed = True
        self.owned: dict[str, bool] = {}

    def keys(self, r: Rel) -> list[frozenset]:
        assert r.view is not None
        if self.unique_names:
            return [k - {"table_name"} if "constraint_name" in k else k for k in r.view.keys]
        return r.view.keys

    def is_pinned(self, uid: str, cols: Iterable[str]) -> bool:
        return all(self.find((uid, c)) in self.pinned for c in cols)

    def confined(self, level: str) -> set[str]:
        "Relations whose rows belong to the requested object (`object`) or schema (`schema`)."
        out: set[str] = set()
        for r in self.rels.values():
            if r.view is None or r.outer:
                continue
            if level == "object":
                if any(self.is_pinned(r.uid, o) for o in r.view.owner):
                    out.add(r.uid)
            elif r.view.schema and any(self.is_pinned(r.uid, [o]) for o in r.view.schema):
                out.add(r.uid)
        changed = True
        while changed:
            changed = False
            for r in self.rels.values():
                if r.uid in out or r.outer:
                    continue
                if r.lateral and any(x in out for x in r.lateral):
                    out.add(r.uid)
                    changed = True
                    continue
                if r.view is None:
                    continue
                links = list(r.view.link)
                if self.unique_names and {"constraint_schema", "constraint_name", "table_name"} <= set(r.view.columns):
                    links.append(frozenset({"constraint_schema", "constraint_name"}))
                for link in links:
                    for s in self.rels.values():
                        if s.uid not in out or s.view is None:
                            continue
                        for k in self.keys(s) + s.view.link:
                            if all(any(self.find((r.uid, a)) == self.find((s.uid, b)) for b in k) for a in link):
                                out.add(r.uid)
                                changed = True
        return out

    def determined(self, uid: str) -> set[str]:
        "Relations that have at most one row for each row of the given relation."
        known: set[Attr] = set(self.pinned) | set(self.consts)
        det: set[str] = set()

        def take(u: str) -> None:
            det.add(u)
            r = self.rels[u]
            for c in list(r.view.columns if r.view else ()) + list(r.attrs):
                known.add(self.find((u, c)))
            for x in r.lateral:
                if x in self.rels and x not in det:
                    take(x)

        take(uid)
        # fully pinned rows are determined
        changed = True
        while changed:
            changed = False
            for r in self.rels.values():
                if r.uid in det or r.view is None:
                    continue
                have = {c for c in r.view.columns if self.find((r.uid, c)) in known}
                for a, b in self.weak.get(r.uid, ()):
                    for x, y in ((a, b), (b, a)):
                        if x[0] == r.uid and (y == ("", "const") or self.find(y) in known and y[0] != r.uid):
                            have.add(x[1])
                if any(k <= have for k in self.keys(r)):
                    take(r.uid)
                    changed = True
        return det

    def driver(self, level: str) -> Optional[str]:
        "A confined relation whose rows determine those of all others."
        conf = self.confined(level)
        for u in self.rels:
            if u in conf and self.determined(u) == set(self.rels):
                return u
        return None
