#!/usr/bin/env python3
"""mktables.py HUNT: fills the tables of DESIGN.md between their markers, from evidence/*.json of a
quick run of every check and from the output of a hunt (id|property|exit|seconds|first line)."""
import sys, os, json, glob, re
root = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
def n(v):
    return f"{v:,}".replace(",", " ")
rows = ["### 4.6 What a quick run covers", "",
        "From the evidence files of a quick run of every check on an idle sandbox with 8 cores (executions",
        "of the explorer, with the runs inside an execution in brackets; distinct states; seconds).", "",
        "| check | spaces, executions | states | s |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/evidence/*.json")):
    d = json.load(open(f)); c = d["coverage"]
    if d["tier"] != "quick" or not c.get("spaces"): continue
    cell = "; ".join(f"{s['space']} {n(s['executions'])}" + (f" ({n(s['inner_executions'])})" if s.get("inner_executions") else "") for s in c["spaces"])
    rows.append(f"| {d['property']} | {cell} | {n(c.get('states', 0))} | {round(d['wall_s'])} |")
bugs = ["| bug | check | found in |", "|---|---|---|"]
for l in open(sys.argv[1]):
    p = l.rstrip("\n").split("|")
    if len(p) < 5: continue
    where = re.sub(r"^space (.*?), choices.*", r"\1", p[4]) if p[4].startswith("space") else p[4][:70].replace("|", "/")
    bugs.append(f"| {p[0]} | {p[1] if p[2] == '1' else 'missed by ' + p[1]} | {where} |")
s = open(root + "/DESIGN.md").read()
for k, t in (("SPACES", rows), ("BUGS", bugs)):
    s = re.sub(rf"<!-- {k} -->(.*?<!-- /{k} -->)?", lambda m: f"<!-- {k} -->\n" + "\n".join(t) + f"\n<!-- /{k} -->", s, count=1, flags=re.S)
open(root + "/DESIGN.md", "w").write(s)
