#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.in.md, properties.jsonl and the check modules (by hand)."""
import ast, glob, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAUGHT = {}     # where it is not simply the property's own check
mods = {}
for f in sorted(glob.glob(HERE + "/checks/c[0-9][0-9]_*.py")):
    d = {}
    tree = ast.parse(open(f).read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "RULE":
            d["rule"] = ast.literal_eval(n.value)
    mods["C" + os.path.basename(f)[1:3]] = d | {"file": os.path.basename(f)}
notes = {}
cur = None
src = open(HERE + "/DESIGN.in.md").read()
head, per, tail = src.split("<<<PROPERTIES>>>")
for line in per.strip().splitlines():
    if line.startswith("@"):
        cur = line[1:].strip(); notes[cur] = []
    else:
        notes[cur].append(line)
out = [head.rstrip(), ""]
for l in open(HERE + "/properties.jsonl"):
    p = json.loads(l)
    m = mods[p["id"]]
    out += [f"### {p['id']} {p['title']}", "",
            f"*Workloads and oracle* (`checks/{m['file']}`): {m['rule']}", ""]
    out += notes.get(p["id"], []) + [""]
out.append(tail.strip())
rows = ["| planted bug | property | caught | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m = json.load(open(f))
    name = os.path.basename(os.path.dirname(f))
    rows.append(f"| {name} | {m['property']} | {CAUGHT.get(name, 'by ' + m['property'])} | {m['needs'].replace('|', '/')} |")
out[-1] = out[-1].replace("<<<SEEDED>>>", "\n".join(rows))
open(HERE + "/DESIGN.md", "w").write("\n".join(out) + "\n")
