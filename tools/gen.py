#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and vc/props.py."""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/vc')
from props import PROPS
R=[]
def P(id,title,statement,over,text,why,files,check=''):
    R.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files)))
NA={}
exec(open(V+'/tools/table.py').read())
for r in R:
    assert len(r['title'])<=80,r['id']
ids=[r['id'] for r in R]; assert len(set(ids))==len(ids)
open(V+'/properties.jsonl','w').write(''.join(json.dumps(r)+'\n' for r in sorted(R,key=lambda r:r['id'])))
checks=[]; na=[]
for r in sorted(R,key=lambda r:r['id']):
    i=r['id']
    if i in PROPS:
        p=PROPS[i]
        checks.append(dict(property=i,quick_cmd=f'python3-vt vc/check.py {i} quick',thorough_cmd=f'python3-vt vc/check.py {i} thorough',
            technique=p.get('technique','contracts on the real functions, discharged by a deductive verifier over their LLVM IR (loop invariants, z3/cvc5)'),level=p['level'],level_note=p['note']))
    else: na.append(dict(property=i,reason=NA[i]))
m=dict(version=1,setup_cmd='bash tools/setup.sh',hooks=dict(guard='VP_VERIFY',enable='the checks compile /repo with -DVP_VERIFY and the header overlay in shim/; no hook is committed in /repo',source_commits=[]),checks=checks,not_applicable=na)
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
import subprocess
print(len(checks),'claimed',len(na),'not applicable')
# DESIGN.md
import re, glob
D=[open(V+'/tools/design_head.md').read()]
for r in sorted(R,key=lambda r:r['id']):
    i=r['id']
    if i not in PROPS: continue
    p=PROPS[i]; D.append(f"### {i} {r['title']}\n{r['statement']}\n\n*Why tests cannot settle it:* {r['why_tests_cant']}\n\n*How it is decided:* {p['note']}\n")
    for u in p['units']:
        t=open(V+'/units/'+u['src']).read()
        c=re.findall(r'^VP_CONTRACT\((\w+)\)',t,re.M); b=re.findall(r'^VP_BOUNDED\((\w+)\)',t,re.M)
        D.append(f"* `units/{u['src']}`: {len(c)} proved contracts ({', '.join(c)})"+(f"; {len(b)} bounded, native only ({', '.join(b)})" if b else '')+'\n')
    if p.get('assumptions'): D.append('* assumed: '+'; '.join(p['assumptions'])+'\n')
    D.append('* anchored in: '+', '.join(r['anchors']['files'])+'\n\n')
D.append('## 3. Not applicable\n')
for r in sorted(R,key=lambda r:r['id']):
    if r['id'] not in PROPS: D.append(f"* **{r['id']} {r['title']}**: {NA[r['id']]}\n")
D.append('\n'+open(V+'/tools/design_tail.md').read())
try: C=json.load(open(V+'/tools/caught.json'))
except OSError: C={}
D.append('\n| change | property | needs | caught by |\n|---|---|---|---|\n')
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); n=f.split('/')[-2]; D.append(f"| {n} | {m['property']} | {m['needs']} | {C.get(n,'not run')} |\n")
open(V+'/DESIGN.md','w').write(''.join(D))
