#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md. Arguments: files with the output of seedtest.sh."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
t = open(p).read()
old = dict(re.findall(r"^\| ([\w-]+) \| C\d\d \|.*\| ([^|]*) \|$", t, re.M))
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) (C\d\d): (.*)", l.strip())
        if m:
            old[m.group(1)] = "C" + m.group(2)[1:] if m.group(3) == "caught" else m.group(3)
rows = ["| bug | property | what it breaks (needs) | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, s)))
    rows.append("| %s | %s | %s (%s) | %s |" % (s, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), old.get(s, "?")))
t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
open(p, "w").write(t)
