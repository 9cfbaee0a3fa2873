#!/usr/bin/env python3
# rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json
import json,glob,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=root+'/DESIGN.md'
t=open(p).read()
rows=["<!-- seeds -->","| bug | property (caught by its check) | needs | breaks |","|---|---|---|---|"]
for f in sorted(glob.glob(root+'/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
rows.append("<!-- /seeds -->")
new="\n".join(rows)
if '@@SEEDS@@' in t: t=t.replace('@@SEEDS@@',new)
else: t=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda _:new,t,flags=re.S)
open(p,'w').write(t)
