#!/usr/bin/env python3
"""Writes DESIGN.md: head, one section per property (docstring of its check, bounds and cost of the last evidence), seeded bugs."""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props
BOUNDS = os.path.join(HERE, "tools", "bounds.json")


def main():
    try:
        cache = json.load(open(BOUNDS))
    except OSError:
        cache = {}
    for p in glob.glob(os.path.join(HERE, "evidence", "*.json")):
        e = json.load(open(p))
        c = e["coverage"]
        cache.setdefault(e["property"], {})[e["tier"]] = {
            "states": c.get("states"), "transitions": c.get("transitions"), "wall_s": round(e["wall_s"]), "bounds": c.get("bounds")}
    json.dump(cache, open(BOUNDS, "w"), indent=1, sort_keys=True)
    caught = {}
    cf = os.path.join(HERE, "tools", "caught.json")
    if os.path.exists(cf):
        caught = json.load(open(cf))
    out = [open(os.path.join(HERE, "tools", "design_head.md")).read(), "## 5. Properties\n"]
    for p in props.P:
        i = p["id"]
        out.append("### %s - %s\n" % (i, p["title"]))
        f = os.path.join(HERE, "checks", i.lower() + ".py")
        if p["na"] or not os.path.exists(f):
            out.append("Not applicable: %s\n" % (p["na"] or "not built"))
            continue
        out.append("Anchors: %s.\n" % ", ".join("`%s`" % x for x in p["files"]))
        doc = ast.get_docstring(ast.parse(open(f).read())).split("\n")
        doc[0] = doc[0].split(":", 1)[1].strip()
        out.append("\n".join(doc) + "\n")
        out.append("Why tests cannot: %s Limits: %s\n" % (p["why"], p["note"]))
        for t in ("quick", "thorough"):
            c = cache.get(i, {}).get(t)
            if c:
                b = c["bounds"]
                out.append("- %s: %s states, %s transitions, %s s%s" % (t, c["states"], c["transitions"], c["wall_s"], (" (%s)" % b) if b else ""))
        out.append("")
    out.append("## 6. Planted bugs\n")
    out.append("Each was written from the text of a property and the code alone; `demo.sh` fails with the patch only. 'caught by' lists the checks that report a violation of "
               "their property with the patch applied.\n")
    out.append("| bug | property | needs | caught by |\n|---|---|---|---|")
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        n = os.path.basename(os.path.dirname(d))
        out.append("| %s | %s | %s | %s |" % (n, m["property"], str(m["needs"]).replace("|", "/"), caught.get(n, m["property"])))
    extra = os.path.join(HERE, "tools", "design_tail.md")
    if os.path.exists(extra):
        out.append("")
        out.append(open(extra).read())
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
