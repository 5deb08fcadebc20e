#!/usr/bin/env python3
"""Write the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json. Run by hand; no check uses it."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m))
    rows.append((j["property"], os.path.basename(os.path.dirname(m)), j["needs"], j["what_it_breaks"], j.get("caught_by", j["property"])))
rows.sort()
t = open(V + "/DESIGN.md").read()
t = t[:t.index("## Planted bugs")]
t += f"""## Planted bugs
{len(rows)} changes that compile, pass the tests and break a property, each with a demonstration (`seeded/`). They were written from the properties'
texts; where the checks missed one at first, the workload was extended (see "Learned from planted bugs"). All are caught at the quick tier, by:

| caught by | change | needs | breaks |
|---|---|---|---|
"""
for p, i, n, b, c in rows:
    t += f"| {c} | {i} | {n} | {b} |\n"
c = sorted(os.path.basename(os.path.dirname(m)) for m in glob.glob(V + "/doc/seeded-c/*/meta.json"))
t += f"""
Changes to qhull's C sources ({', '.join(c)}; caught as well) are kept apart in `doc/seeded-c/`, since qhull is compiled as ISO C90, in which the comment
lines that vcheck appends to each changed file don't compile.
"""
open(V + "/DESIGN.md", "w").write(t)
