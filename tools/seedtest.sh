#!/bin/bash
# tools/seedtest.sh ID...: confirms planted bugs in a scratch copy of /repo (/tmp/sr): the demo passes
# without the change, the change builds and passes the tests, the demo fails with it.
set -u
S=/tmp/sr
head=$(git -C /repo rev-parse HEAD)
if [ ! -d $S ] || [ "$(cat $S/.head 2>/dev/null)" != "$head" ]; then
  rm -rf /tmp/sr; mkdir -p /tmp/sr-cache; cp -a /repo $S; rm -rf $S/_build $S/_build_dbg $S/_build_results
  sed 's#/repo#/tmp/sr#g; s#/opt/vp/build.sh#/tmp/sr/.vpbuild.sh#g' /opt/vp/build.sh > $S/.vpbuild.sh
  sed 's#/repo#/tmp/sr#g; s#/opt/vp/build.sh#/tmp/sr/.vpbuild.sh#g' /opt/vp/test.sh > $S/.vptest.sh
  bash $S/.vpbuild.sh > /tmp/sr-build.log 2>&1 || { echo "scratch build failed"; tail -5 /tmp/sr-build.log; exit 1; }
  echo $head > $S/.head
fi
rc=0
for id in "$@"; do
  d=/verif/seeded/$id; D=/tmp/sr-demo; rm -rf /tmp/sr-demo; cp -a $d $D; rm -f $D/*.diff $D/meta.json
  git -C $S checkout -q -- . 
  bash $S/.vpbuild.sh > /tmp/sr-build.log 2>&1 || { echo "$id: base build failed"; rc=1; continue; }
  (cd $S && timeout 300 bash $D/demo.sh > /tmp/sr-demo.log 2>&1); r0=$?
  if ! git -C $S apply $d/patch.diff; then echo "$id: patch does not apply"; rc=1; continue; fi
  if ! bash $S/.vpbuild.sh > /tmp/sr-build.log 2>&1; then echo "$id: does not build"; tail -3 /tmp/sr-build.log; rc=1; git -C $S checkout -q -- .; continue; fi
  bash $S/.vptest.sh /tmp/sr-t.json > /tmp/sr-test.log 2>&1
  miss=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/sr-t.json'))
bl=b.get('stable') or b.get('passed') or b
names=set(bl if isinstance(bl,list) else [x for x in bl])
print(' '.join(sorted(n for n in names if n not in set(t['passed'])))[:300])
P
)
  (cd $S && timeout 300 bash $D/demo.sh > /tmp/sr-demo2.log 2>&1); r1=$?
  git -C $S checkout -q -- .
  ok=OK; [ $r0 = 0 ] && [ $r1 != 0 ] && [ -z "$miss" ] || { ok=BAD; rc=1; }
  echo "$id: $ok demo base=$r0 patched=$r1 missing-tests=[$miss] :: $(tail -1 /tmp/sr-demo2.log | cut -c1-150)"
done
exit $rc
