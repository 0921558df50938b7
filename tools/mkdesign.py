#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md
import json,os,re
rows=["<!-- seeds -->","| planted bug | property | needs |","|---|---|---|"]
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
rows.append("<!-- /seeds -->")
t="\n".join(rows)
s=open('/verif/DESIGN.md').read()
if '@SEEDS@' in s: s=s.replace('@SEEDS@',t)
else: s=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda _:t,s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
