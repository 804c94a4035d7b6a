#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE  # noqa
root = os.path.dirname(here)
S = "turbustat/statistics/"
with open(os.path.join(root, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p.get("over", ["inputs", "configurations"]),
                            text=p["quant"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"],
                         mechanism=[dict(name=n, where=w)
                                    for n, w in p["mech"]],
                         hook_needed=False))) + "\n")
man = dict(version=1, setup_cmd="bash vlib/build_ext.sh",
           checks=[dict(property=p["id"],
                        quick_cmd="bash run.sh %s quick" % p["id"],
                        thorough_cmd="bash run.sh %s thorough" % p["id"],
                        technique="property-based testing: "
                        + p["technique"],
                        level="exploration",
                        level_note=p.get("note", "Generated inputs within "
                                         "the sizes given in DESIGN.md; no "
                                         "proof beyond them."))
                   for p in PROPS
                   if os.path.exists(os.path.join(root, "checks",
                                                  p["id"] + ".py"))],
           not_applicable=NOT_APPLICABLE)
missing = [p["id"] for p in PROPS if not os.path.exists(
    os.path.join(root, "checks", p["id"] + ".py"))]
for m in missing:
    man["not_applicable"].append(dict(property=m, reason="check not built "
                                                         "yet"))
with open(os.path.join(root, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
print(len(PROPS), "properties", missing)

# DESIGN.md
import ast
import re
from design_notes import NOTES


def facets(pid):
    tree = ast.parse(open(os.path.join(root, "checks", pid + ".py")).read())
    for fn in tree.body:
        if not isinstance(fn, ast.FunctionDef):
            continue
        for d in fn.decorator_list:
            if isinstance(d, ast.Call) and \
                    getattr(d.func, "id", "") == "facet":
                kw = {}
                for k in d.keywords:
                    try:
                        kw[k.arg] = ast.literal_eval(k.value)
                    except ValueError:
                        pass
                yield fn.name, kw


def seeded():
    out = {}
    d = os.path.join(root, "seeded")
    for name in sorted(os.listdir(d)):
        p = os.path.join(d, name, "meta.json")
        if os.path.exists(p):
            m = json.load(open(p))
            out.setdefault(m["property"], []).append((name, m))
    return out


caught = {}
p = os.path.join(root, "tools", "caught.json")
if os.path.exists(p):
    caught = json.load(open(p))
bugs = seeded()
with open(os.path.join(root, "DESIGN.md"), "w") as fh:
    fh.write(open(os.path.join(here, "design_head.md")).read())
    fh.write("## Properties\n\n")
    for p in sorted(PROPS, key=lambda p: p["id"]):
        fh.write("### %s %s\n\n%s\n\n" % (p["id"], p["title"],
                                         NOTES[p["id"]]))
        fh.write("Why tests cannot: %s\n\n" % p["why"])
        for name, kw in facets(p["id"]):
            q = kw.get("quick", 50)
            fh.write("* `%s` (%s / %s cases): %s\n" % (
                name, q, kw.get("thorough", q * 20), kw.get("rule", "")))
        fh.write("\n")
    fh.write(open(os.path.join(here, "design_tail.md")).read())
    fh.write("| planted bug | property | needs | caught by |\n"
             "|---|---|---|---|\n")
    for pid in sorted(bugs):
        for name, m in bugs[pid]:
            fh.write("| %s | %s | %s | %s |\n" % (
                name, pid, m["needs"].replace("|", "/"),
                caught.get(name, "not yet run")))
