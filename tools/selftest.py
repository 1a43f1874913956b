"""
Runs the rules on edited copies of the sources, held in memory: python3 tools/selftest.py [C03 ...]
Each tools/mutations/cXX.py lists BUGS and BENIGN edits as (relative path, old text, new text) or lists of such triples.
A bug must be reported, a benign edit must not.
"""
import concurrent.futures, importlib.util, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.dont_write_bytecode = True; sys.setrecursionlimit(20000)
from analysis.framework import run_rules, load_known, REPO
from analysis.program import Program


def run(job):
    cid, kind, edit = job
    edits = edit if isinstance(edit, list) else [edit]
    ov = {}
    for rel, old, new in edits:
        rel = "pysqlsync/" + rel
        s = ov.get(rel) or open(os.path.join(REPO, rel), encoding="utf-8").read()
        if old not in s:
            return cid, kind, edits, "STALE", []
        ov[rel] = s.replace(old, new, 1)
        compile(ov[rel], rel, "exec")
    try:
        ctx = run_rules(cid, Program(REPO, overrides=ov))
    except Exception as e:
        return cid, kind, edits, "ERR", [f"{type(e).__name__}: {e}"]
    known = load_known().get(cid, {})
    fs = [f.key for f in ctx.findings if f.key not in known]
    ok = bool(fs) == (kind == "bug")
    return cid, kind, edits, "ok" if ok else "MISSED" if kind == "bug" else "FALSE-ALARM", fs


def main(ids):
    jobs = []
    d = os.path.join(ROOT, "tools", "mutations")
    allbenign = []
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".py"):
            continue
        cid = fn[:-3].upper()
        spec = importlib.util.spec_from_file_location(fn[:-3], os.path.join(d, fn))
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        if cid == "COMMON":
            allbenign += m.BENIGN
            continue
        if ids and cid not in ids:
            continue
        jobs += [(cid, "bug", e) for e in getattr(m, "BUGS", [])] + [(cid, "benign", e) for e in getattr(m, "BENIGN", [])]
    every = sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "analysis", "rules")) if f.startswith("c"))
    for cid in every:
        if not ids or cid in ids:
            jobs += [(cid, "benign", e) for e in allbenign]
    n = {}
    with concurrent.futures.ProcessPoolExecutor(8) as ex:
        for cid, kind, edits, verdict, fs in ex.map(run, jobs):
            n[verdict] = n.get(verdict, 0) + 1
            if verdict != "ok" or "-v" in sys.argv:
                print(cid, kind, verdict, [(r, o.strip()[:60], w.strip()[:60]) for r, o, w in edits], fs[:3])
    print(n)


if __name__ == "__main__":
    main([a for a in sys.argv[1:] if not a.startswith("-")])
