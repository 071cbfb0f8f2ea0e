#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md.
import glob, json, os, re
rows = []
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} |")
t = "<!-- seeded -->\n| Planted bug | Caught by | What it needs |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeded -->"
s = open('/verif/DESIGN.md').read()
if 'SEEDED-TABLE' in s:
    s = s.replace(' SEEDED-TABLE', '\n\n' + t)
else:
    s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: t, s, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
