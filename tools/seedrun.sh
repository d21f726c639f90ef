#!/bin/bash
# seedrun.sh ID...: apply a planted bug to /repo, run its property's quick check, undo.
V=$(cd "$(dirname "$0")/.." && pwd); export REPO=${REPO:-/repo}
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  git -C $REPO apply $V/seeded/$id/patch.diff || continue
  s=$(date +%s)
  $V/check.sh $p quick > /tmp/seedrun.$id 2>&1; rc=$?
  git -C $REPO checkout -- .
  python3 - $V $id $rc "$(grep -m1 VIOLATION /tmp/seedrun.$id)" "$p" <<'P'
import json,os,sys,re
f=sys.argv.pop(1)+'/tools/seedresults.json'
r=json.load(open(f)) if os.path.exists(f) else {}
m=re.search(r'-(VH_\w+)-',sys.argv[3]) 
r[sys.argv[1]]=sys.argv[4]+' ('+m.group(1)+')' if sys.argv[2]=='1' and m else 'missed'
json.dump(r,open(f,'w'),indent=1,sort_keys=True)
P
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/seedrun.$id)"
done
