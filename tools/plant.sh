#!/bin/bash
# plant.sh ID [CHECK...]: confirms seeded/ID (builds, stable tests pass, demo passes without and fails with the patch) in a
# scratch copy of /repo under /tmp/plant, then runs the given checks (default: the bug's property) against the patched copy.
set -u
ID=$1; shift
S=${SEEDED:-/verif/seeded}/$ID
P=${PLANT:-/tmp/plant}
W=$P/repo
mkdir -p $P/vp
if [ ! -d $W ]; then
  cp -a /repo $W
  rm -rf $W/_build
  cp -a /opt/vp/. $P/vp/
  grep -rl /repo $P/vp | xargs sed -i "s#/repo#$W#g; s#/opt/vp#$P/vp#g"
fi
git -C $W checkout -q -- . && git -C $W fetch -q /repo main && git -C $W reset -q --hard FETCH_HEAD
demo() { mkdir -p $P/d; rm -rf $P/d/x; cp -a $S $P/d/x; rm -f $P/d/x/patch.diff $P/d/x/meta.json; (cd $W && timeout 300 bash $P/d/x/demo.sh >$P/demo.$1 2>&1); }
bash $P/vp/build.sh >$P/build.log 2>&1 || { tail -5 $P/build.log; exit 1; }
demo clean; echo "demo clean: $?"
git -C $W apply $S/patch.diff || { echo "does not apply"; exit 1; }
bash $P/vp/build.sh >$P/build.log 2>&1 || { tail -30 $P/build.log; exit 1; }
bash $P/vp/test.sh $P/t.json >/dev/null 2>&1
python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=set(json.load(open('$P/t.json'))['passed'])
print('stable missing:', sorted(b-t))"
demo bug; echo "demo with the bug: $?"; tail -3 $P/demo.bug
[ $# -gt 0 ] || set -- $(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for c in "$@"; do
  VERIF_REPO=$W VERIF_BUILD=$P/build VERIF_WORK=$P/work python3 /verif/run_check.py $c 2>&1 | tail -4 | cut -c1-400
done
git -C $W checkout -q -- .
