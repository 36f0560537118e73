"""fills the generated parts of DESIGN.md (functions, obligation counts, planted bugs) from the evidence of the last runs and from seeded/"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, "DESIGN.md")
t = open(p).read()
for i in range(1, 100):
    c = "C%02d" % i
    f = os.path.join(HERE, "evidence", c + ".json")
    if not os.path.exists(f):
        continue
    e = json.load(open(f))
    v = e["coverage"]
    if e["level"] != "proof" or e["tier"] != "quick":
        print("stale", c)
        continue
    names = ", ".join("`%s`" % x for x in v["functions_under_contract"] if x != "<lambda>")
    t = re.sub(r"(?m)^\| %s \|[^|]*\|(.*)\| \d+ \| \d+ \|$" % c, lambda m: "| %s | %s |%s| %d | %.0f |" % (c, names, m.group(1), v["obligations"], e["wall_s"]), t)
rows = ["| bug | property | what it breaks | needs |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"], m["needs"]))
t = re.sub(r"(?s)<!-- bugs -->.*<!-- end -->", lambda m: "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- end -->", t)
open(p, "w").write(t)
