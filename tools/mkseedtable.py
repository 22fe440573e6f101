"""Rewrites the table of planted bugs in DESIGN.md (between its two markers)."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for s in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(V+'/seeded/%s/meta.json'%s))
    rows.append('| %s | %s | %s | %s |'%(s,m['property'],m['what_it_breaks'],m['needs']))
t='<!-- seeds -->\n| id | caught by | what it breaks | needs |\n|---|---|---|---|\n'+'\n'.join(rows)+'\n<!-- /seeds -->'
p=V+'/DESIGN.md'; d=open(p).read()
d=d.replace('SEEDTABLE',t) if 'SEEDTABLE' in d else re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda _:t,d,flags=re.S)
open(p,'w').write(d)
