import json,os
S='/verif/seeded'
rows=[]
for b in sorted(os.listdir(S)):
    m=json.load(open(f'{S}/{b}/meta.json'))
    rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
table="\n".join(rows)
doc=open('/verif/tools/design.in.md').read().replace('@@BUGS@@',table)
open('/verif/DESIGN.md','w').write(doc)
