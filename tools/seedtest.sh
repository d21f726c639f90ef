#!/bin/bash
# seedtest.sh ID...: confirm in a scratch copy that a planted bug applies, builds,
# passes the stable tests, and that its demo tells the two trees apart.
. /opt/vp/env.sh
V=$(cd "$(dirname "$0")/.." && pwd); REPO=${REPO:-/repo}
for id in "$@"; do
  d=$V/seeded/$id
  w=$(mktemp -d /tmp/seed.XXXX); cp -a $REPO/. $w/
  (cd $w && bash $d/demo.sh >$w.clean 2>&1); a=$?
  (cd $w && git apply $d/patch.diff) || { echo "$id: patch does not apply"; rm -rf $w; continue; }
  (cd $w && go build ./... >$w.build 2>&1) || { echo "$id: does not build"; tail -5 $w.build; }
  sed "s#/repo#$w#g" /opt/vp/test.sh > $w.test.sh
  bash $w.test.sh $w.json >/dev/null 2>&1
  m=$(python3 - $w.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x):
    for k in ('passed','stable','tests','pass'):
        if k in x:
            v=x[k]; return set(v if isinstance(v,list) else v.keys())
    return set()
print(sorted(names(b)-names(o))[:5])
P
)
  (cd $w && timeout 300 bash $d/demo.sh >$w.bug 2>&1); b=$?
  echo "$id: demo clean=$a bug=$b missing=$m"
  [ $a = 0 ] || tail -5 $w.clean
  [ $b != 0 ] || tail -5 $w.bug
  rm -rf $w $w.*
done
