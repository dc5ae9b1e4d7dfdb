#!/bin/bash
# tools/seeds/seedrun.sh ID...: demo on the clean tree, then with the patch:
# build, tests, demo, check. Everything happens on overlays of /repo, /verif
# and /opt/vp in a mount namespace of its own.
if [ -z "$SEEDRUN_IN" ]; then
  o=$(mktemp -d /tmp/seedrun.XXXXXX)
  SEEDRUN_IN=$o unshare -m bash "$0" "$@"; s=$?
  rm -rf "$o"; exit $s
fi
o=$SEEDRUN_IN
for d in repo verif opt/vp; do
  mkdir -p $o/$d/u $o/$d/w
  mount -t overlay overlay -o lowerdir=/$d,upperdir=$o/$d/u,workdir=$o/$d/w /$d || exit 2
done
cd /verif
V=/verif
for id in "$@"; do
  s=$V/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  echo "== $id ($prop)"
  git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
  (cd /repo && bash $s/demo.sh >$o/demo.log 2>&1); r=$?; echo "  clean demo: $r"; [ $r = 0 ] || grep -m3 -E "^error|panicked" -A6 $o/demo.log | cut -c1-300
  git -C /repo apply $s/patch.diff || { echo "  DOES NOT APPLY"; continue; }
  bash /opt/vp/build.sh >$o/build.log 2>&1 || echo "  BUILD FAILS"
  bash /opt/vp/test.sh $o/out.json >$o/test.log 2>&1; python3 -c "import json;d=json.load(open('$o/out.json'));print('  tests:',len(d['passed']),'pass', len(d.get('failed',[])), 'fail')"
  (cd /repo && bash $s/demo.sh >$o/demo.log 2>&1); echo "  patched demo: $?"; grep -m1 -E "^error|panicked" -A1 $o/demo.log | cut -c1-300
  cp $o/demo.log /tmp/demo.log
  s0=$(date +%s); $V/run $prop >/tmp/chk.log 2>&1; echo "  check: $? ($(( $(date +%s)-s0 )) s) $(grep -m1 VIOLATION /tmp/chk.log)"
  git -C /repo checkout -q -- .
done
