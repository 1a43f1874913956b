"""
python3 tools/mkseed.py FILE...: makes /verif/seeded/<id>/ from a definition and confirms it. A definition is a Python file with
ID, PROPERTY, EDITS [(path, old, new)], NEEDS, BREAKS and DEMO (a Python program). The change is applied to /repo and undone.
"""
import json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexport PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, cwd=REPO, **k)


def main(fn):
    d = {}
    exec(open(fn).read(), d)
    out = os.path.join(HERE, "seeded", d["ID"])
    os.makedirs(out, exist_ok=True)
    assert not sh("git", "status", "--porcelain").stdout, "repository not clean"
    open(os.path.join(out, "demo.py"), "w").write(d["DEMO"].lstrip("\n"))
    open(os.path.join(out, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump(dict(property=d["PROPERTY"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
    clean = sh("bash", os.path.join(out, "demo.sh"))
    res = {"clean": clean.returncode}
    try:
        for path, old, new in d["EDITS"]:
            p = os.path.join(REPO, "pysqlsync", path)
            s = open(p).read()
            assert s.count(old) >= 1, (path, old)
            open(p, "w").write(s.replace(old, new, 1))
        open(os.path.join(out, "patch.diff"), "w").write(sh("git", "diff").stdout)
        sh("bash", "/opt/vp/build.sh")
        sh("bash", "/opt/vp/test.sh", "/tmp/seed.json")
        o = json.load(open("/tmp/seed.json"))
        res["missing"] = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in set(o["passed"])]
        r = sh("bash", os.path.join(out, "demo.sh"))
        res["bug"] = r.returncode
        res["why"] = (r.stdout + r.stderr).strip().splitlines()[-1:]
        c = subprocess.run(["python3", "check.py", d["PROPERTY"]], cwd=HERE, capture_output=True, text=True)
        res["caught"] = c.returncode == 1 and f"VIOLATION property={d['PROPERTY']}" in c.stdout
        res["by"] = [re.sub(r".*rule ", "", l)[:160] for l in c.stdout.splitlines() if ": rule " in l][:3]
    finally:
        sh("git", "checkout", "--", ".")
    ok = res["clean"] == 0 and res["bug"] != 0 and not res["missing"]
    print(d["ID"], "OK" if ok else "INVALID", "caught" if res.get("caught") else "MISSED", res)
    if res["clean"]:
        print(clean.stdout[-500:], clean.stderr[-800:])


for a in sys.argv[1:]:
    main(a)
