#!/usr/bin/env python3
"""Write TABLES.md from the evidence of the last quick runs and tools/seed_results.txt."""
import json, os, glob
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
out = ["# Families and bounds (quick tier, from the evidence of the last runs)", ""]
for f in sorted(glob.glob("evidence/P*.json")):
    d = json.load(open(f)); c = d["coverage"]
    p = os.path.basename(f)[:-5]
    out += [f"## {p}", "", "| family | bound | executions |", "|--|--|--|"]
    out += [f"| {x['name']} | {x['bound'].replace('|', chr(92)+'|')} | {x['executions']}{'' if x['complete'] else ' (incomplete)'} |" for x in c["families"]]
    out.append("")
out += ["# Planted bugs", "", "| bug | what it breaks | needs | result |", "|--|--|--|--|"]
res = {}
if os.path.exists("tools/seed_results.txt"):
    for l in open("tools/seed_results.txt"):
        if "rc=" in l:
            i, rest = l.split(" ", 1)
            res[i] = rest.strip()
for f in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(f)); i = f.split("/")[1]
    r = res.get(i, "not run")
    r = ("caught by " + r.split()[0] + ", " + " ".join(r.split()[3:])) if "rc=1" in r else r
    cell = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
    out.append(f"| {i} | {cell(d['what_it_breaks'])} | {cell(d['needs'])} | {cell(r)} |")
open("TABLES.md", "w").write("\n".join(out) + "\n")
