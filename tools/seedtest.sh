#!/bin/bash
# seedtest.sh [-t] ID... : by hand only. In a scratch copy of /repo: apply seeded/ID/patch.diff, build, run its
# demonstration with and without the patch, with -t also the stable tests, then the property's check.
V=$(cd "$(dirname "$0")/.." && pwd); T=0; [ "$1" = -t ] && { T=1; shift; }
M=/tmp/seedtest; R=$M/repo
mkdir -p $M; [ -d $R ] || cp -a /repo $R
for f in build test; do sed "s#/opt/vp/work#$M/work#g; s#REPO=/repo#REPO=$R#; s#'/repo/tbplas/'#'$R/tbplas/'#; s#/opt/vp/build.sh#$M/build.sh#; s#T=/repo/tests#T=$R/tests#; s#rootdir=/repo#rootdir=$R#; s#unset PYTHONPATH#export PYTHONPATH=$R#" /opt/vp/$f.sh > $M/$f.sh; done
for id in "$@"; do
  S=$V/seeded/$id
  git -C $R checkout -q -- . ; git -C $R pull -q /repo HEAD 2>/dev/null || git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
  d=$(mktemp -d /tmp/seeddemo.XXXX); cp -r $S/. $d; rm -f $d/*.diff $d/meta.json
  bash $M/build.sh >$M/b.log 2>&1 || { echo "$id: clean build failed"; tail -3 $M/b.log; continue; }
  (cd $R && timeout 300 bash $d/demo.sh >$M/d0.log 2>&1); r0=$?
  git -C $R apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $M/build.sh >$M/b.log 2>&1 || { echo "$id: build failed"; tail -5 $M/b.log; continue; }
  (cd $R && timeout 300 bash $d/demo.sh >$M/d1.log 2>&1); r1=$?
  p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  t=-; if [ $T = 1 ]; then bash $M/test.sh $M/out.json >$M/t.log 2>&1
    t=$(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('$M/out.json'))
ok=set(r.get('passed',[]))
print('pass' if b<=ok else 'FAIL '+' '.join(sorted(b-ok)[:3]))
P
); fi
  out=$(cd $V && VERIF_REPO=$R timeout 900 /opt/venv/bin/python check.py $p 2>&1); rc=$?
  c=missed; [ $rc = 1 ] && echo "$out" | grep -q "^VIOLATION property=$p" && c=caught
  echo "$id: demo clean=$r0 patched=$r1 tests=$t check $p rc=$rc $c :: $(echo "$out" | grep '^-- ' | head -1 | cut -c1-160)"
  [ $r0 = 0 ] || tail -3 $M/d0.log
  git -C $R checkout -q -- .; rm -rf "$d"
done
