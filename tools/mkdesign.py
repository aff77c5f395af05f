"""DESIGN.md = tools/DESIGN.tmpl.md with the findings (known_findings.json) and the planted changes (seeded/) filled in."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(V + "/known_findings.json"))
rows = {}
for x in k["fixed"]:
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", x, re.S)
    rows.setdefault(m[1], []).append((m[2], m[3].replace("|", "\\|")))
f = f"{len(k['fixed'])} genuine defects were found by the checks (or while writing the specification) and repaired in `fix:` commits:\n\n| property | commit | what failed |\n|---|---|---|\n"
f += "\n".join(f"| {p} | {h} | {w} |" for p in sorted(rows) for h, w in rows[p])
s = "| id | property | what it needs | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    s += f"| {d} | {m['property']} | {m['needs']} | {m.get('caught', m['property'])} |\n"
t = open(V + "/tools/DESIGN.tmpl.md").read().replace("@@FINDINGS@@", f).replace("@@SEEDS@@", s)
r = V + "/tools/reverts.txt"
t = t.replace("@@REVERTS@@", open(r).read().strip() if os.path.exists(r) else "see known_findings.json.").replace("@@EXTRA@@", "")
open(V + "/DESIGN.md", "w").write(t)
