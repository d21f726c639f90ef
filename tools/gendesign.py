#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.tmpl.md, the harness comments and the planted bugs."""
import json,os,re,glob
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
h={}
for f in sorted(glob.glob(root+'/harness/**/*.go',recursive=True)):
    s=open(f).read()
    for m in re.finditer(r'((?:^//.*\n)+)func VH_(C\d+)_(\w+)\(\)',s,re.M):
        doc=m.group(1).split('\n'); text=[];b=[];o=[]
        for l in doc:
            l=l[2:]
            t=l.strip()
            if t.startswith('bounds:'): b.append(t[7:].strip())
            elif t.startswith('outside:'): o.append(t[8:].strip())
            elif t.startswith('vsym:') or not t: pass
            else: text.append(t)
        txt=' '.join(text); txt=re.sub(r'^VH_\w+: ','',txt)
        h.setdefault(m.group(2),[]).append((m.group(3),txt,' '.join(b)))
na=json.load(open(root+'/tools/na.json'))
rows=[]
for p in props:
    i=p['id']
    if i in h and i not in na:
        rows.append('| %s %s | %s | %s |'%(i,p['title'],'<br>'.join('`%s`: %s'%(n,t) for n,t,_ in h[i]),'<br>'.join('`%s`: %s'%(n,b) for n,_,b in h[i])))
    else:
        rows.append('| %s %s | not applicable: %s | |'%(i,p['title'],na.get(i,'no check built yet')))
res=json.load(open(root+'/tools/seedresults.json')) if os.path.exists(root+'/tools/seedresults.json') else {}
seeds=[]
for d in sorted(glob.glob(root+'/seeded/*')):
    m=json.load(open(d+'/meta.json')); i=os.path.basename(d)
    seeds.append('| %s | %s | %s; needs: %s | %s |'%(i,m['property'],m['what_it_breaks'],m['needs'],res.get(i,'not run')))
t=open(root+'/tools/DESIGN.tmpl.md').read()
f=open(root+'/tools/findings.md').read() if os.path.exists(root+'/tools/findings.md') else ''
t=t.replace('@@TABLE@@','\n'.join(rows)).replace('@@SEEDS@@','\n'.join(seeds)).replace('@@FINDINGS@@',f.strip())
open(root+'/DESIGN.md','w').write(t)
