"Regenerates DESIGN.md from tools/design_head.md, tools/design_tail.md, the rule modules, properties.jsonl, known_findings.txt and tools/seed_results.json."
import ast, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkmanifest import NA, TECH
from design_limits import REACH, LIMITS, COST


def module(path):
    m = ast.parse(open(path, encoding="utf-8").read())
    assumptions = []
    for n in m.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS":
            try:
                assumptions = ast.literal_eval(n.value)
            except ValueError:
                pass
    return ast.get_docstring(m), assumptions


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    known = open(os.path.join(HERE, "known_findings.txt"), encoding="utf-8").read().splitlines()
    seeds = json.load(open(os.path.join(HERE, "tools", "seed_results.json")))
    out = [open(os.path.join(HERE, "tools", "design_head.md"), encoding="utf-8").read().rstrip() + "\n"]
    out.append("## Properties\n")
    for p in props:
        i = p["id"]
        out.append(f"### {i} {p['title']}\n")
        path = os.path.join(HERE, "analysis", "rules", i.lower() + ".py")
        if not os.path.exists(path):
            out.append(f"Not applicable: {NA.get(i, "check not built yet")}.\n")
            continue
        doc, assumptions = module(path)
        out.append(f"*Deciding method*: {TECH[i]} (`analysis/rules/{i.lower()}.py`).\n")
        out.append(doc.strip() + "\n")
        out.append(f"*Beyond the tests*: {REACH[i]}\n")
        if assumptions:
            out.append("*Assumed*: " + "; ".join(assumptions) + ".\n")
        out.append(f"*Bounds and limits*: {LIMITS[i]}\n")
        if i in COST:
            out.append(f"*Cost*: {COST[i]}\n")
        fixed = [l for l in known if l.startswith(f"fixed: property={i} ")]
        found = [l for l in known if l.startswith(f"finding: property={i} ")]
        if fixed:
            out.append("*Defects found and repaired*: " + "; ".join(f"{l.split(' ', 3)[3]} ({l.split(' ', 3)[2]})" for l in fixed) + ".\n")
        if found:
            groups = {}
            for l in found:
                m = re.match(r"finding: property=\S+ key=(.*?) :: (.*)", l)
                groups.setdefault(m.group(2), []).append(m.group(1))
            out.append("*Known findings* (genuine, recorded in known_findings.txt and not repaired):\n")
            for text, keys in groups.items():
                shown = "; ".join(f"`{k}`" for k in keys[:6]) + (f" and {len(keys) - 6} more" if len(keys) > 6 else "")
                out.append(f"- {text} ({shown})")
            out.append("")
        own = [(n, r) for n, r in seeds.items() if json.load(open(os.path.join(HERE, "seeded", n, "meta.json")))["property"] == i]
        if own:
            out.append("*Planted changes*: " + "; ".join(f"`{n}`: " + ("caught by " + ", ".join(r["caught"]) if r["caught"] else "not caught") for n, r in own) + ".\n")
    out.append(open(os.path.join(HERE, "tools", "design_tail.md"), encoding="utf-8").read())
    text = "\n".join(out)
    open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8").write(text)


main()
