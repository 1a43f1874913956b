#!/usr/bin/env python3
"""Apply each planted change to a scratch copy of /repo and run every check on it; write which checks catch it.

usage: runseeds.py [name ...]     (writes tools/seed_results.json)
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
OUT = os.path.join(HERE, "seed_results.json")


def examine(name):
    scratch = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(scratch, "repo")
        os.makedirs(repo)
        shutil.copytree("/repo/pysqlsync", os.path.join(repo, "pysqlsync"))
        patch = os.path.join(ROOT, "seeded", name, "patch.diff")
        r = subprocess.run(["git", "apply", patch], cwd=repo, capture_output=True, text=True)
        if r.returncode:
            return name, {"error": r.stderr.strip()[:200]}
        work = os.path.join(scratch, "verif")
        os.makedirs(work)
        for item in ("analysis", "check.py", "known_findings.txt", "properties.jsonl"):
            src = os.path.join(ROOT, item)
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(work, item))
        checks = sorted(
            m.group(1).upper()
            for f in os.listdir(os.path.join(ROOT, "analysis", "rules"))
            if (m := re.fullmatch(r"(c\d\d)\.py", f))
        )
        caught, errors = [], []
        for cid in checks:
            p = subprocess.run(
                [sys.executable, "check.py", cid], cwd=work, capture_output=True, text=True, env={**os.environ, "VERIF_REPO": repo}
            )
            if p.returncode == 1:
                caught.append(cid)
            elif p.returncode:
                errors.append(cid)
        return name, {"caught": caught, "errors": errors}
    finally:
        shutil.rmtree(scratch)


def main():
    names = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    results = json.load(open(OUT)) if os.path.exists(OUT) else {}
    with ThreadPoolExecutor(7) as pool:
        for name, res in pool.map(examine, names):
            results[name] = res
            meta = json.load(open(os.path.join(ROOT, "seeded", name, "meta.json")))
            own = "caught" if meta["property"] in res.get("caught", []) else "MISSED"
            print(name, meta["property"], own, res, flush=True)
    present = set(os.listdir(os.path.join(ROOT, "seeded")))
    results = {k: v for k, v in sorted(results.items()) if k in present}
    with open(OUT, "w") as f:
        json.dump(results, f, indent=1)
        f.write("\n")


main()
