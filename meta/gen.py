#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py and the rules that exist in rules/.
Each rules/<ID>.py carries TECHNIQUE and NOTE; a property without a rule is listed as not applicable (meta/na.py)."""
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from meta.props import PROPS
from meta.na import NA
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]; r = "%s/rules/%s.py" % (V, i)
    if os.path.exists(r):
        c = {t.targets[0].id: ast.literal_eval(t.value) for t in ast.parse(open(r).read()).body
             if isinstance(t, ast.Assign) and getattr(t.targets[0], "id", "") in ("TECHNIQUE", "NOTE")}
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py " + i,
            evidence_file="evidence/%s.json" % i, technique=c["TECHNIQUE"], level="other", level_note=c["NOTE"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No sound static rule for this property has been built in this framework.")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="All checks are static analyses of /repo's current sources (clang/LLVM 18 front end); see DESIGN.md."), open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
try:
    import jsonschema
    S = "/root/.vp/"
    jsonschema.validate(json.load(open(V + "/MANIFEST.json")), json.load(open(S + "MANIFEST.schema.json")))
    for l in open(V + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), json.load(open(S + "PROPERTIES.schema.json")))
except ImportError:
    pass

def design():
    out = [open(V + "/meta/design_head.md").read().rstrip(), "", "## Properties and how each is decided", ""]
    for p in PROPS:
        r = "%s/rules/%s.py" % (V, p["id"])
        if not os.path.exists(r): continue
        m = ast.parse(open(r).read())
        c = {t.targets[0].id: ast.literal_eval(t.value) for t in m.body if isinstance(t, ast.Assign) and getattr(t.targets[0], "id", "") in ("TECHNIQUE", "NOTE")}
        doc = (ast.get_docstring(m) or "").split(": ", 1)[-1].strip()
        out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "", "* Rule (`rules/%s.py`): %s" % (p["id"], doc), "* Technique: %s" % c["TECHNIQUE"], "* Scope and trust: %s" % c["NOTE"], ""]
    out += ["## Not applicable to static analysis", ""]
    for n in na: out.append("* **%s** %s – %s" % (n["property"], [p["title"] for p in PROPS if p["id"] == n["property"]][0], n["reason"]))
    out += ["", open(V + "/meta/design_notes.md").read().rstrip(), "", "## Genuine defects of xo found by the checks", "", "Repaired (one `fix:` commit each) and recorded findings, from `known_findings.txt`:", ""]
    for l in open(V + "/known_findings.txt"):
        if l.strip(): out.append("* " + l.strip())
    out += ["", "## Planted bugs and which check catches them", "", "Measured with `meta/seeds.py` (applies each `seeded/*/patch.diff` to a scratch copy and runs the property's check).", "", "| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    caught = json.load(open(V + "/meta/caught.json")) if os.path.exists(V + "/meta/caught.json") else {}
    for s in sorted(os.listdir(V + "/seeded")):
        f = "%s/seeded/%s/meta.json" % (V, s)
        if not os.path.exists(f): continue
        j = json.load(open(f))
        k = caught.get(s)
        out.append("| %s | %s | %s | %s |" % (s, j["property"], j["needs"], "not measured" if k is None else ", ".join(k) if k else "missed"))
    open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
if os.path.isdir(V + "/seeded"): design()
print(len(checks), "claimed;", len(na), "not applicable")
