#!/bin/bash
# Developer aid: confirm a seeded change in a scratch copy, then run the checks of its property
# (or those named after the id) against it.   usage: seedtest.sh SEED [PROP..]
set -u
S=/verif/seeded/$1; shift
W=/tmp/seedwt
. /opt/vp/env.sh
if [ ! -d $W ]; then cp -a /repo $W; fi
git -C $W fetch -q /repo HEAD && git -C $W checkout -q -f FETCH_HEAD || exit 1
cd $W
export CARGO_TARGET_DIR=$W/target
b() { cargo test --workspace --no-run --locked --offline >/tmp/seed.b 2>&1 && cargo build --workspace --locked --offline >>/tmp/seed.b 2>&1; }
if [ "$(cat $W/target/.clean 2>/dev/null)" != "$(git rev-parse HEAD)" ] || [ ! -f $W/target/clean-carcara ]; then
  b || { echo "clean build failed"; exit 1; }
  cp $W/target/debug/carcara $W/target/clean-carcara; git rev-parse HEAD > $W/target/.clean
fi
cp $W/target/clean-carcara $W/target/debug/carcara
timeout 300 bash $S/demo.sh >/tmp/seed.d0 2>&1; r0=$?
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
b || { echo "SEED BUILD FAILED"; tail -30 /tmp/seed.b; git checkout -q -f .; exit 1; }
timeout 300 bash $S/demo.sh >/tmp/seed.d1 2>&1; r1=$?
cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 >/tmp/seed.t 2>&1
f=$(grep -E '^test .* FAILED' /tmp/seed.t | head -5)
git checkout -q -f .
echo "demo clean=$r0 patched=$r1 tests: ${f:-all pass}"
[ $r0 = 0 ] && [ $r1 != 0 ] && [ -z "$f" ] || { echo "SEED INVALID"; tail -n 5 /tmp/seed.d0 /tmp/seed.d1; exit 1; }
P="$*"; [ -z "$P" ] && P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
unset CARGO_TARGET_DIR
cd /verif
git -C /repo apply $S/patch.diff || exit 1
for p in $P; do
  s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} python3 run.py $p ${TIER:-quick} >/tmp/seed.c 2>&1; rc=$?
  echo "$p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/seed.c)"
done
git -C /repo checkout -- .
