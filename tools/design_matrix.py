"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- matrix -->\n"
rows = ["| planted change | caught by | needs | what it breaks |\n", "|---|---|---|---|\n"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |\n")
p = os.path.join(HERE, "DESIGN.md")
text = open(p).read().split(MARK)[0]
with open(p, "w") as f:
    f.write(text + MARK + "".join(rows))
