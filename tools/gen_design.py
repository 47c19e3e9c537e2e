#!/usr/bin/env python3
# Refreshes the table of planted bugs at the end of DESIGN.md.
import json, glob, os
rows = ["| bug | caught by | breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m.get('caught_by', m['property'])} | {m['what_it_breaks']} | {m['needs']} |")
d = open('/verif/DESIGN.md').read()
a = d.index("\n## 7.")
head = d[a:].split("\n\n")
intro = head[0]
open('/verif/DESIGN.md', 'w').write(d[:a] + intro + "\n\n" + "\n".join(rows) + "\n")
