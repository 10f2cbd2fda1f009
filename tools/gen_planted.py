#!/usr/bin/env python3
"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json
and from the log of an evaluation (lines "<bug> <property> rc=<rc> ...")."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for log in sys.argv[1:]:
    for l in open(log):
        m = re.match(r"(\S+) (C\d\d) rc=(\d+)", l)
        if m: res.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
p = os.path.join(root, "DESIGN.md"); s = open(p).read()
head = s.split("## Planted bugs")[0]
out = ["## Planted bugs", "",
       "Each lies in `seeded/<id>/` with its demonstration. \"caught by\" lists the",
       "quick checks run against it that reported it (normally only the check of its",
       "own property is run).", "",
       "| bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    r = res.get(i, {})
    c = ", ".join(k for k in sorted(r) if r[k] == "1") or ("**missed**" if r else "?")
    cell = lambda t: re.sub(r"\s+", " ", t).replace("|", "/")
    out.append("| %s | %s | %s | %s |" % (i, cell(m["what_it_breaks"]), cell(m["needs"]), c))
open(p, "w").write(head + "\n".join(out) + "\n")
