#!/usr/bin/env python3
"""Writes the table of case counts and measured times between the <!-- costs --> markers of DESIGN.md, from the
harnesses' declared case counts and the evidence of the last quick run on the unchanged tree."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
rows = ["| property | cases quick / thorough | non-trivial (quick) | libFuzzer runs quick / thorough | wall quick |", "|---|---|---|---|---|"]
def n(x):
    return f"{x/1e6:g} M" if x >= 1000000 else f"{x/1e3:g} k" if x >= 1000 else str(x)
for pid, c in sorted(checks.CHECKS.items()):
    t = open(os.path.join(V, "harness", c["src"])).read()
    m = re.search(r'(\d+),\s*(\d+)[^"]*?\};?\s*$', t[t.rindex("the_property"):].rstrip())
    q, th = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    nt = wall = ""
    try:
        e = json.load(open(os.path.join(V, "evidence", pid + ".json")))
        if e["tier"] == "quick" and not e["violations"]:
            nt, wall = f"{100 * e['coverage']['distinct_nontrivial'] // max(1, e['coverage']['evaluations'])} %", f"{e['wall_s']:.0f} s"
    except FileNotFoundError:
        pass
    f = c.get("fuzz_runs")
    rows.append(f"| {pid} | {n(q)} / {n(th)} | {nt} | {n(f['quick']) + ' / ' + n(f['thorough']) if f else '-'} | {wall} |")
p = os.path.join(V, "DESIGN.md")
d = open(p).read()
a, b = d.index("<!-- costs -->"), d.index("<!-- /costs -->")
open(p, "w").write(d[:a] + "<!-- costs -->\n" + "\n".join(rows) + "\n" + d[b:])
