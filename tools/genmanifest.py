import json,os,re
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,'..')
props=[json.loads(l) for l in open(os.path.join(root,'properties.jsonl'))]
have=set()
for d,_,fs in os.walk(os.path.join(root,'harness')):
    for f in fs:
        if f.endswith('.go'):
            have|=set(re.findall(r'func VH_(C\d+)_',open(os.path.join(d,f)).read()))
NOTES=json.load(open(os.path.join(here,'notes.json')))
NA=json.load(open(os.path.join(here,'na.json')))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have and i not in NA:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "technique":"symbolic execution of the compiled-from-source SSA of the real code, with an SMT solver (z3) deciding every branch and assertion; counterexamples replayed on the compiled program",
          "level":"model_checking",
          "level_note":NOTES.get(i,"Holds for every input within the bounds printed in the evidence file; the bounds, what lies outside them and the modelled parts (see DESIGN.md) are the assumptions.")})
    else:
        na.append({"property":i,"reason":NA.get(i,"no check built yet")})
m={"version":1,"setup_cmd":"./setup.sh",
 "hooks":{"guard":"none","enable":"no hooks are compiled into /repo; harnesses enter through go build -overlay","source_commits":[]},
 "checks":checks,"not_applicable":na,
 "notes":"check.sh builds the engine if needed, loads /repo's working tree, explores the harnesses of the property and rewrites evidence/<id>.json."}
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'claimed',len(na),'not')
