#!/usr/bin/env python3
"""Fill the generated parts of DESIGN.md (between <!-- x --> and <!-- /x -->).

tools/caught.txt: planted bug, group of the quick check that reports it first.
tools/times.txt:  property, quick seconds, thorough seconds (8 idle cores).
tools/counts.json: coverage numbers of a quick and of a thorough run.
"""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(f"{here}/MANIFEST.json"))
src = open(f"{here}/harness/src/main.rs").read()
rule = {m[0]: m[2] for m in re.findall(r'id: "(C\d\d)",\s*level: (\w+),\s*rule: "(.*?)",\n', src, re.S)}
times = {l.split()[0]: l.split()[1:] for l in open(f"{here}/tools/times.txt")}
counts = json.load(open(f"{here}/tools/counts.json"))
def n(c):
    if c.get("states"):
        return f"{c['states']:,} states, {c['transitions']:,} transitions".replace(",", " ")
    return f"{c['evaluations']:,} cases".replace(",", " ")
rows = ["| id | what is enumerated, against what | quick | thorough | s |", "|---|---|---|---|---|"]
for i in sorted(rule):
    q, t = times[i]
    rows.append(f"| {i} | {rule[i]} | {n(counts[i]['quick'])} | {n(counts[i]['thorough'])} | {q} / {t} |")
seeds = ["| planted bug | needs | reported by |", "|---|---|---|"]
for l in open(f"{here}/tools/caught.txt"):
    i, g = (l.split() + ["-"])[:2]
    m = json.load(open(f"{here}/seeded/{i}/meta.json"))
    seeds.append(f"| {i} | {m['needs']} | {m['property']} `{g}` |")
d = open(f"{here}/DESIGN.md").read()
for k, v in (("table", rows), ("seeded", seeds)):
    d = re.sub(rf"<!-- {k} -->.*?<!-- /{k} -->", lambda _: f"<!-- {k} -->\n" + "\n".join(v) + f"\n<!-- /{k} -->", d, flags=re.S)
open(f"{here}/DESIGN.md", "w").write(d)
