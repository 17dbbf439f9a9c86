#!/usr/bin/env python3
"""Rewrites section 5 of DESIGN.md from seeded/*/meta.json and tools/caught.json (id -> checks that reported it)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s |" % (i, m["what_it_breaks"], ", ".join(caught.get(i, [])) or "none"))
head = """## 5. Planted bugs

%d changes under `seeded/` (each builds, passes the stable tests and has a demonstration), written from the property texts; \
%d are caught by the check of their property.  The last column lists the checks run against the change that reported it \
(always that of its property; others where they were tried).

| bug | what it breaks | reported by |
|-----|----------------|-------------|
""" % (len(rows), sum(1 for f in glob.glob(V + "/seeded/*/meta.json") if json.load(open(f))["property"] in caught.get(os.path.basename(os.path.dirname(f)), [])))
s = open(V + "/DESIGN.md").read()
new = head + "\n".join(rows) + "\n\n"
if "@BUGS@" in s: s = s.replace("@BUGS@\n\n", new)
else: s = re.sub(r"## 5\. Planted bugs.*?(?=^## 6\.)", lambda m: new, s, flags=re.S | re.M)
open(V + "/DESIGN.md", "w").write(s)
