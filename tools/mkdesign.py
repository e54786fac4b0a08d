#!/usr/bin/env python3
"""DESIGN.md = design_head.md + one section per property (notes, contracts) + planted bugs"""
import ast, glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); N = json.load(open(H + "/tools/design_notes.json")); out = [open(H + "/tools/design_head.md").read(), "## Properties\n"]
for l in open(H + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; f = "%s/contracts/%s.py" % (H, i); out.append("### %s %s\n\n%s\n" % (i, p["title"], N.get(i, "")))
    if not os.path.exists(f): continue
    for d in ast.parse(open(f).read()).body:
        if not isinstance(d, ast.FunctionDef): continue
        for c in d.decorator_list:
            if isinstance(c, ast.Call) and getattr(c.func, "id", "") == "contract":
                kw = {k.arg: k.value for k in c.keywords}; b = isinstance(kw.get("mode"), ast.Constant) and kw["mode"].value == "bounded"
                out.append("* `%s`%s %s" % (c.args[0].value if isinstance(c.args[0], ast.Constant) else d.name, " **bounded** (%s)" % kw["why"].value if b and isinstance(kw.get("why"), ast.Constant) else "", " ".join((ast.get_docstring(d) or "").split())))
    out.append("")
out.append("## Planted bugs\n"); res = H + "/tools/seed_results.json"; R = json.load(open(res)) if os.path.exists(res) else {}
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    j = json.load(open(m)); k = os.path.basename(os.path.dirname(m)); out.append("* `%s` (%s): %s. Needs: %s. %s" % (k, j["property"], j["what_it_breaks"].rstrip("."), j["needs"].rstrip("."), R.get(k, "")))
open(H + "/DESIGN.md", "w").write("\n".join(out) + "\n"); print(len(out))
