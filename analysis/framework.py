"Rule driver: obligations, findings, evidence and exit codes."

from __future__ import annotations

import importlib
import json
import os
import re
import sys
import time
import traceback
from dataclasses import dataclass, field
from typing import Callable, Iterable, Iterator, Optional

from .interp import Interp, Result
from .program import AnalysisError, ClassInfo, FuncInfo, Program
from .terms import T
from .types import TypeResolver

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(HERE, "known_findings.txt")


@dataclass
class Finding:
    rule: str
    construct: str
    loc: str
    message: str

    @property
    def key(self) -> str:
        return f"{self.rule}|{self.construct}"


@dataclass
class Ctx:
    prog: Program
    prop: str
    tier: str = "quick"
    tr: TypeResolver = None  # type: ignore
    findings: list[Finding] = field(default_factory=list)
    counts: dict[str, int] = field(default_factory=dict)
    obligations: int = 0
    discharged: int = 0
    functions: set[str] = field(default_factory=set)
    samples: list[str] = field(default_factory=list)
    rules: dict[str, list[int]] = field(default_factory=dict)
    notes: list[str] = field(default_factory=list)

    def __post_init__(self) -> None:
        self.tr = TypeResolver(self.prog)

    # -- reporting

    def ok(self, rule: str, construct: str, loc: str = "", message: str = "") -> None:
        self.check(True, rule, construct, loc, message)

    def bad(self, rule: str, construct: str, loc: str, message: str) -> None:
        self.check(False, rule, construct, loc, message)

    def check(self, cond: bool, rule: str, construct: str, loc: str, message: str = "") -> bool:
        self.obligations += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if cond:
            self.discharged += 1
            r[1] += 1
            if len([s for s in self.samples if s.startswith(rule + ":")]) < 3:
                self.samples.append(f"{rule}: {construct} at {loc}")
        else:
            f = Finding(rule, construct, loc, message)
            if f.key not in {x.key for x in self.findings}:
                self.findings.append(f)
        return cond

    def count(self, name: str, n: int = 1) -> None:
        self.counts[name] = self.counts.get(name, 0) + n

    def minimum(self, name: str, n: int) -> None:
        "Instance count confirmed by hand; fewer means the analysis no longer sees what it must analyse."
        if self.counts.get(name, 0) < n:
            known = load_known().get(self.prop, {})
            if any(f.key not in known for f in self.findings):
                return  # what is reported explains the missing instance
            raise AnalysisError(f"{self.prop}: only {self.counts.get(name, 0)} instances of '{name}', expected at least {n}")

    def analysed(self, f: FuncInfo) -> None:
        self.functions.add(f.short)

    # -- evaluation

    def interp(self, inline: Optional[Callable[[FuncInfo, Optional[T]], bool]] = None, **kw) -> Interp:
        return Interp(self.prog, self.tr, inline, **kw)

    def run(self, f: FuncInfo, cls: Optional[ClassInfo] = None, inline: Optional[Callable[[FuncInfo, Optional[T]], bool]] = None, **kw) -> Result:
        it = self.interp(inline)
        r = it.run(f, cls, **kw)
        self.functions.update(q[len("pysqlsync."):] if q.startswith("pysqlsync.") else q for q in it.visited)
        return r


def flat(items: Iterable[T]) -> Iterator[T]:
    "Trace events in order, without descending into the operands of an event."
    for i in items:
        if i.op == "for":
            yield from flat(i.args[2])
        elif i.op == "if":
            yield from flat(i.args[1])
            yield from flat(i.args[2])
        elif i.op == "discard":
            continue
        else:
            yield i


def events(r: Result) -> list[T]:
    "Events on any path through the function, including paths that end in an exception."
    out: list[T] = []
    seen: set[int] = set()
    for trace in [r.trace] + [o.state.heap[0].args[1] for o in r.raises]:
        for e in flat(trace):
            if id(e) not in seen:
                seen.add(id(e))
                out.append(e)
    return out


def load_known() -> dict[str, dict[str, str]]:
    out: dict[str, dict[str, str]] = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", line.rstrip("\n"))
                if m:
                    out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


def rule_module(pid: str):
    return importlib.import_module(f"analysis.rules.{pid.lower()}")


def run_rules(pid: str, prog: Program, tier: str = "quick") -> Ctx:
    ctx = Ctx(prog, pid, tier)
    rule_module(pid).check(ctx)
    return ctx


def main(pid: str) -> int:
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    try:
        mod = rule_module(pid)
        prog = Program(REPO)
        ctx = run_rules(pid, prog, tier)
    except AnalysisError as e:
        print(f"ANALYSIS-BROKEN property={pid}: {e}")
        return 2
    except RecursionError:
        print(f"ANALYSIS-BROKEN property={pid}: recursion limit")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={pid}: internal error")
        return 2
    known = load_known().get(pid, {})
    new = [f for f in ctx.findings if f.key not in known]
    old = [f for f in ctx.findings if f.key in known]
    for f in old:
        print(f"KNOWN-FINDING: property={pid} {f.loc} [{f.rule}] {f.construct}: {known[f.key]}")
    replay = os.path.join(evdir, f"{pid}.violations.txt")
    if new:
        with open(replay, "w", encoding="utf-8") as fh:
            for f in new:
                fh.write(f"{f.loc}: rule {f.rule}: {f.construct}: {f.message}\n    key: {f.key}\n")
    elif os.path.exists(replay):
        os.remove(replay)
    for f in new:
        print(f"{f.loc}: rule {f.rule}: {f.construct}: {f.message}")
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": (mod.__doc__ or "").strip(),
            "repository": REPO,
            "modules_parsed": len(prog.modules),
            "functions_analysed": len(ctx.functions),
            "functions": sorted(ctx.functions),
            "obligations": ctx.obligations,
            "discharged": ctx.discharged,
            "instances": dict(sorted(ctx.counts.items())),
            "rules": {k: {"obligations": v[0], "discharged": v[1]} for k, v in sorted(ctx.rules.items())},
            "samples": ctx.samples[:40] or ["no site"],
            "notes": ctx.notes,
            "findings": [f"{f.loc} {f.key}: {f.message}" for f in ctx.findings],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    with open(os.path.join(evdir, f"{pid}.json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1)
    print(f"property={pid} functions={len(ctx.functions)} obligations={ctx.obligations} discharged={ctx.discharged} known={len(old)} new={len(new)} wall={ev['wall_s']}s")
    if new:
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    return 0
