"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import ast, json, os
here = os.path.dirname(os.path.abspath(__file__))
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(here, "mc", "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    t = ast.parse(open(f).read())
    d = {}
    for s in t.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id in ("TECHNIQUE", "BOUNDS", "NOTE"):
            d[s.targets[0].id] = ast.literal_eval(s.value)
    checks.append(dict(
        property=p["id"],
        quick_cmd="./check.sh %s quick" % p["id"],
        thorough_cmd="./check.sh %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique=d.get("TECHNIQUE", "stateless explicit-state model checking of the real code: exhaustive enumeration of a bounded choice tree against a reference model"),
        level="model_checking",
        level_note=d.get("NOTE", "Exhaustive within the bounds: %s. Outside the bounds nothing is claimed; trusts the plain-Python reference model (mc/) and numpy/pandas/scipy." % (d.get("BOUNDS", {}).get("quick", "see evidence"))),
    ))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the environment is scripted from outside (numpy.random functions, file system audit events, to_latex). See DESIGN.md.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
