#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the general part and, per property, the statement, the analysis (docstring of the check), its trust, limits and history."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(V + "/MANIFEST.json"))
claims = {c["property"] if "property" in c else c.get("property_id"): c for c in man["checks"]}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
fixed = {}; findings = {}
for l in open(V + "/known-findings.txt"):
    m = re.match(r"(fixed|finding): property=(\S+) (.*)", l)
    if m: (fixed if m[1] == "fixed" else findings).setdefault(m[2], []).append(m[3])
NOTES = {}
exec(open(V + "/tools/design_notes.py").read())
seeds = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f)); seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d))
out = [GENERAL.strip(), ""]
for pr in props:
    i = pr["id"]; out.append("## %s %s" % (i, pr["title"])); out.append("")
    st = pr.get("statement") or pr.get("property") or ""
    out += [st, ""]
    c = claims.get(i)
    if not c:
        na = next((n["reason"] for n in man["not_applicable"] if n.get("property", n.get("property_id")) == i), "no check")
        out += ["**Not applicable:** " + na, ""]; continue
    f = V + "/sa/props/%s.py" % i.lower()
    doc = ast.get_docstring(ast.parse(open(f).read())) or ""
    out += ["**Decided by** (`sa/props/%s.py`): %s" % (i.lower(), " ".join(doc.split())), ""]
    out += ["**Why beyond the tests:** " + (pr.get("why_tests_cant") or "the rule holds on all paths of the code, not for the workbooks of a test."), ""] 
    for k, v in NOTES.get(i, ()): out += ["**%s:** %s" % (k, v), ""]
    if fixed.get(i): out += ["**Defects found and repaired:** " + "; ".join("%s (%s)" % (x.split(" ", 1)[1], x.split(" ", 1)[0]) for x in fixed[i]) + ".", ""]
    if findings.get(i): out += ["**Known findings (not repaired):** " + "; ".join(x.split(" :: ", 1)[-1] for x in findings[i]), ""]
    if seeds.get(i): out += ["**Planted bugs:** " + "; ".join("`%s` (%s) - %s" % (n, d["what_it_breaks"].strip().rstrip("."), CAUGHT.get(n, "caught")) for n, d in seeds[i]) + ".", ""]
out.append(TAIL.strip())
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
