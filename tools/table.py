"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| folder | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(here, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], str(m["needs"]).replace("|", "/").replace("\n", " "), m["property"]))
path = os.path.join(here, "DESIGN.md")
text = open(path).read()
text = re.sub(r"<!-- table:begin -->.*?<!-- table:end -->", lambda _: "<!-- table:begin -->\n" + "\n".join(rows) + "\n<!-- table:end -->", text, flags=re.S)
open(path, "w").write(text)
