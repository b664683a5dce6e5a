#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the property table, caught.json and design_tail.md."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from table import TABLE, NOT_APPLICABLE
rd = lambda f: open(HERE + "/" + f).read() if os.path.exists(HERE + "/" + f) else ""
out = [rd("design_head.md"), "\n## 2. Per property\n\nOracle: the reference specification in the named harness. Bounds: none on values unless stated; "
       "instantiations double/float, 2-8 rotors. Statements are in properties.jsonl.\n"]
for p in sorted(TABLE, key=lambda p: p["id"]):
    out.append("\n* **%s %s** (`harness/%s`). Analysed: %s. Rule: %s. Open: %s. Why tests cannot: %s.%s" % (
        p["id"], p["title"], p["harness"] or "witness.cpp", ", ".join("`%s`" % os.path.basename(f) for f in p["files"]), p["rule"], p["text"], p["why"],
        " " + p["note"] if p.get("note") else ""))
out.append("\n\n## 3. Not applicable\n")
for p in NOT_APPLICABLE:
    out.append("\n* **%s %s**: %s." % (p["id"], p["title"], p["reason"]))
out.append("\n" + rd("design_tail.md"))
c = rd("caught.json")
if c:
    out.append("\n## 6. Planted bugs and the checks that catch them\n\nEach was confirmed in a scratch copy: it compiles, passes the 118 stable tests, and its demo fails only with the change.\n\n"
               "| bug | property | change | caught by |\n|---|---|---|---|\n")
    for b in json.loads(c):
        out.append("| %s | %s | %s | %s |\n" % (b["id"], b["property"], b["what"], ", ".join(b["caught"]) or "none"))
open(V + "/DESIGN.md", "w").write("".join(out))
