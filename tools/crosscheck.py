"""
Runs every check on trees with edits that change no behaviour (all BENIGN edits of tools/mutations), several non-overlapping edits at a
time: python3 tools/crosscheck.py [size of groups] [substring of edit's file ...]. A group with an alarm is split until the edit is found.
"""
import concurrent.futures, importlib.util, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.dont_write_bytecode = True; sys.setrecursionlimit(20000)
from analysis.framework import run_rules, load_known, REPO
from analysis.program import Program
import re
CHECKS = sorted(m.group(1).upper() for f in os.listdir(os.path.join(ROOT, "analysis", "rules")) if (m := re.fullmatch(r"(c\d\d)\.py", f)))


def apply(edits, ov):
    """False if one of the edits does not apply to the current text"""
    new = dict(ov)
    for rel, old, txt in edits:
        rel = "pysqlsync/" + rel
        s = new.get(rel)
        if s is None:
            s = open(os.path.join(REPO, rel), encoding="utf-8").read()
        if old not in s:
            return None
        new[rel] = s.replace(old, txt, 1)
        try:
            compile(new[rel], rel, "exec")
        except SyntaxError:
            return None
    return new


def run(job):
    cid, group = job
    ov = {}
    for e in group:
        n = apply(e, ov)
        if n is None:
            return cid, group, ["STALE"]
        ov = n
    try:
        ctx = run_rules(cid, Program(REPO, overrides=ov))
        known = load_known().get(cid, {})
        return cid, group, [f.key for f in ctx.findings if f.key not in known]
    except Exception as e:
        return cid, group, [f"ERR {type(e).__name__}: {e}"]


def main():
    size = int(sys.argv[1]) if len(sys.argv) > 1 else 6
    only = sys.argv[2:]
    d = os.path.join(ROOT, "tools", "mutations")
    pend = []
    if only == ["again"]:
        import json
        with concurrent.futures.ProcessPoolExecutor(8) as pool:
            for cid, group, fs in pool.map(run, [(c, [e]) for c, _, e in json.load(open("/tmp/cross.json"))]):
                print("ALARM" if fs else "quiet", cid, [f[:200] for f in fs[:3]], "::", [(r, o[:90], n[:160]) for r, o, n in group[0]][:2], flush=True)
        return
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".py") or (only and fn[:-3] not in only):
            continue
        spec = importlib.util.spec_from_file_location("m_" + fn[:-3], os.path.join(d, fn))
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for e in getattr(m, "BENIGN", []):
            pend.append(e if isinstance(e, list) else [e])
    print("edits:", len(pend))
    groups = []
    for e in pend:
        if apply(e, {}) is None:
            print("STALE", str(e)[:200]); continue
        for g in groups[-12:]:
            if len(g) < size:
                ov = {}
                for x in g:
                    ov = apply(x, ov) if ov is not None else None
                if ov is not None and apply(e, ov) is not None:
                    g.append(e); break
        else:
            groups.append([e])
    print("groups:", len(groups), flush=True)
    alarms: list = []
    with concurrent.futures.ProcessPoolExecutor(8) as pool:
        jobs = [(c, g) for g in groups for c in CHECKS]
        while jobs:
            more = []
            for cid, group, fs in pool.map(run, jobs, chunksize=1):
                if fs:
                    if len(group) > 1:
                        h = len(group) // 2
                        more += [(cid, group[:h]), (cid, group[h:])]
                    else:
                        alarms.append((cid, fs, group[0]))
                        print("ALARM", cid, [f[:200] for f in fs[:3]], "::", [(r, o[:90], n[:160]) for r, o, n in group[0]][:2], flush=True)
            jobs = more
    import json
    json.dump(alarms, open("/tmp/cross.json", "w"))
    print("done", len(alarms))


if __name__ == "__main__":
    main()
