#!/usr/bin/env python3
"""Regenerates the generated parts of DESIGN.md (between <!-- begin X --> and <!-- end X -->)."""
import ast, glob, json, os, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def meta(fn):
    d = {}
    for n in ast.parse(open(fn).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("ID", "TITLE", "TECHNIQUE", "RULE", "ASSUMPTIONS"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    return d


def props():
    why = json.load(open(os.path.join(ROOT, "tools/design_notes.json")))
    out = []
    for fn in sorted(glob.glob(os.path.join(ROOT, "checks/c[0-9]*.py"))):
        m = meta(fn)
        w = why.get(m["ID"], {})
        out.append(f"### {m['ID']} {m['TITLE']}\n")
        out.append(f"* **Decided by**: {m['TECHNIQUE']}.")
        out.append(f"* **Enumerated and checked**: {m['RULE']}.")
        out.append(f"* **Assumptions**: {'; '.join(m['ASSUMPTIONS'])}.")
        for k, v in w.items():
            out.append(f"* **{k}**: {v}")
        out.append("")
    return "\n".join(out)


def seeded():
    fn = os.path.join(ROOT, "tools/seeded_results.json")
    res = json.load(open(fn)) if os.path.exists(fn) else {}
    out = ["| change | property | needs | caught by |", "|---|---|---|---|"]
    for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
        out.append(f"| {d} | {m['property']} | {m['needs']} | {', '.join(res.get(d, [])) or '(not run)'} |")
    return "\n".join(out)


def fixed():
    k = json.load(open(os.path.join(ROOT, "known_findings.json")))
    return "\n".join("* " + (x if isinstance(x, str) else json.dumps(x)) for x in k["fixed"])


def still_open():
    k = json.load(open(os.path.join(ROOT, "known_findings.json")))
    return "\n".join(f"* {x['property']} {json.dumps(x['match'])}: {x['what']}" for x in k["findings"])


s = open(os.path.join(ROOT, "DESIGN.md")).read()
for name, f in (("properties", props), ("seeded", seeded), ("fixed", fixed), ("open", still_open)):
    s = re.sub(rf"(<!-- begin {name} -->\n).*?(<!-- end {name} -->)", lambda m: m.group(1) + f() + "\n" + m.group(2), s, flags=re.S)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)
