"""mkseed.py: make /verif/seeded/<id> from a replacement and a demo test.
Development helper: mk(id, property, [(file, old, new)...], pkg, demo_go, needs, breaks)"""
import os,subprocess,shutil,tempfile,json
DEMO='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/overlay.json"
export TMPDIR="$t"
timeout 200 go test -overlay "$t/overlay.json" -vet=off -count=1 -run '^TestPlantedDemo$' ./%s
'''
def mk(id,prop,reps,pkg,demo,needs,breaks,flags=''):
    w=tempfile.mkdtemp(prefix='mks.',dir='/tmp')
    subprocess.check_call(['cp','-a',os.environ.get('REPO','/repo')+'/.',w])
    for f,o,n in reps:
        p=os.path.join(w,f); s=open(p).read()
        assert s.count(o)==1,(id,f,s.count(o))
        open(p,'w').write(s.replace(o,n))
    d=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'seeded',id); os.makedirs(d,exist_ok=True)
    patch=subprocess.check_output(['git','-C',w,'diff']).decode()
    #it has to change lines of the original repository
    root=subprocess.check_output(['git','-C',w,'rev-list','--max-parents=0','HEAD']).decode().split()[0]
    for f,_,_ in reps:
        base=subprocess.check_output(['git','-C',w,'show',root+':'+f]).decode().split('\n')
        gone=[l[1:] for l in subprocess.check_output(['git','-C',w,'diff','--',f]).decode().split('\n') if l.startswith('-') and not l.startswith('---')]
        if gone and not any(l in base for l in gone): print(id,'changes no original line of',f,gone)
    open(d+'/patch.diff','w').write(patch)
    open(d+'/demo_test.go','w').write(demo)
    open(d+'/demo.sh','w').write((DEMO%(pkg,pkg)).replace('go test ','go test '+flags)); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(w)
