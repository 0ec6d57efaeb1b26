"""Rewrite the plant table of DESIGN.md (between the markers) from seeded/*/meta.json."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| plant | property / check that catches it | needs |", "|---|---|---|"]
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} |")
p = H + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- plants -->", "<!-- /plants -->"
new = a + "\n" + "\n".join(rows) + "\n" + b
s = s.replace("@PLANTS@", new) if "@PLANTS@" in s else re.sub(re.escape(a) + ".*" + re.escape(b), lambda _: new, s, flags=re.S)
cost = dict(zip([f"C{i:02}" for i in range(1, 23)], "8 21 16 5 15 10 10 5 9 16 7 18 18 55 40 25 18 5 6 6 35 15".split()))
for k, v in cost.items():
    s = s.replace(f"@{k}@", f"{v} s")
open(p, "w").write(s)
