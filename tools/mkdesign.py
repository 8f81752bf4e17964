#!/usr/bin/env python3
"""DESIGN.md = tools/design/1-head.md + section 2 from tools/props.py and tools/design/how.py + tools/design/3-tail.md"""
import json
import os
import sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
sys.path.insert(0, os.path.join(D, "design"))
import how      # noqa: E402
import props    # noqa: E402
o = [open(D + "/design/1-head.md").read(), "## 2. Properties\n"]
for p in props.PROPS:
    if p.get("na"):
        continue
    h = how.HOW[p["id"]]
    o.append("### %s — %s\n%s\n\n*Decided by* `sa/checks/%s.py`: %s%s\n\n*Anchors*: %s. *Why tests cannot settle it*: %s\n" % (
        p["id"], p["title"], p["statement"], p["id"].lower(), h[0], (" *Bounds*: " + h[1] + ".") if h[1] else "", ", ".join(p["files"]), p["why"]))
na = [p for p in props.PROPS if p.get("na")]
if na:
    o.append("### Not applicable\n" + "\n".join("* **%s — %s**: %s" % (p["id"], p["title"], p["na"]) for p in na) + "\n")
V = os.path.dirname(D)
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + i + "/meta.json"))
    rows.append("* `%s` — caught by the %s check. Needs %s; %s." % (i, m["property"], m["needs"].rstrip("."), m["what_it_breaks"].rstrip(".")))
o.append(open(D + "/design/3-tail.md").read().replace("@@SEEDS@@", "\n".join(rows)))
open(os.path.join(os.path.dirname(D), "DESIGN.md"), "w").write("\n".join(o))
