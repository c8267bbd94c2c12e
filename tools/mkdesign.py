"""fills the generated part of DESIGN.md: contracts per property (from contracts/*.py) and planted changes (from seeded/*/meta.json)"""
import ast, glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for i in range(1, 21):
    p = os.path.join(H, "contracts", "c%02d.py" % i)
    t = ast.parse(open(p).read())
    out.append("\n**C%02d**\n" % i)
    for n in t.body:
        if isinstance(n, ast.FunctionDef):
            d = [ast.unparse(x) for x in n.decorator_list]
            if any(x.startswith("contract(") for x in d):
                out.append("- `%s`%s: %s" % (n.name, " (bounded)" if "bounded" in d[0] else "", " ".join((ast.get_docstring(n) or "").split())))
seeds = ["| change | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
res = json.load(open(os.path.join(H, "tools", "caught.json")))
for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); k = os.path.basename(os.path.dirname(m))
    seeds.append("| %s | %s | %s | %s | %s |" % (k, d["property"], d["needs"], d["what_it_breaks"], res.get(k, "?")))
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
for mark, body in (("CONTRACTS", "\n".join(out)), ("SEEDED", "\n".join(seeds))):
    a, b = "<!-- %s -->" % mark, "<!-- /%s -->" % mark
    s = s[:s.index(a) + len(a)] + "\n" + body + "\n" + s[s.index(b):]
open(p, "w").write(s)
