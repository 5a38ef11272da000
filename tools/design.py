"""Writes the per-property table of DESIGN.md from the modules (python3 tools/design.py)."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = []
for p in props:
    src = open(os.path.join(V, "mc/props/%s.py" % p["id"].lower())).read()
    c = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "ASSUMPTIONS", "MODES"):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    fam = re.findall(r'ctx\.family\("([^"]+)"\)', src)
    out.append("### %s %s\n\n*Decided by* exhaustive enumeration of: %s.\n\n*Families:* %s. *Execution modes:* %s.\n\n*Assumptions/limits:* %s.\n\n*Out of reach of the tests because:* %s\n" % (p["id"], p["title"], c["BOUNDS"], ", ".join(fam), ", ".join(c["MODES"]), "; ".join(c["ASSUMPTIONS"]) or "none", p["why_tests_cant"]))
s = open(os.path.join(V, "DESIGN.md")).read()
a, b = "<!-- properties:begin -->", "<!-- properties:end -->"
s = s[: s.index(a) + len(a)] + "\n\n" + "\n".join(out) + "\n" + s[s.index(b) :]
open(os.path.join(V, "DESIGN.md"), "w").write(s)

f = os.path.join(V, "tools/mutants.json")
res = json.load(open(f)) if os.path.exists(f) else {}
rows = ["Each bug passes the stable tests; results of `tools/mutants.py` (own check, and other checks where they were run).", "", "| bug | breaks | what | needs | caught by | missed by |", "|---|---|---|---|---|---|"]
for bid in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", bid, "meta.json")))
    ck = res.get(bid, {}).get("checks", {})
    rows.append("| %s | %s | %s | %s | %s | %s |" % (bid, m["property"], m["what_it_breaks"], m["needs"], " ".join(sorted(p for p in ck if ck[p] == "caught")), m["property"] if ck.get(m["property"]) == "missed" else ""))
s = open(os.path.join(V, "DESIGN.md")).read()
a, b = "<!-- seeded:begin -->", "<!-- seeded:end -->"
s = s[: s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b) :]
open(os.path.join(V, "DESIGN.md"), "w").write(s)
