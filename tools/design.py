"""fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json"))
rows = ["| bug | property | needs | own check |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded"), key=lambda d: (d[0], int(re.match(r"[a-z](\d+)", d).group(1)))):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), caught.get(d, "?")))
p = V + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda m: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", t, flags=re.S)
open(p, "w").write(t)
