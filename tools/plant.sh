#!/bin/bash
# plant.sh ID: takes the working diff of /tmp/plant/work as planted bug ID and confirms it: compiles,
# passes the stable tests, and seeded/ID/demo.sh fails with it and passes without it. Leaves work clean.
# plant.sh ID again: re-confirms an existing patch.
id=$1; s=/verif/seeded/$id; w=/tmp/plant/work
. /opt/vp/env.sh
cd $w || exit 1
mkdir -p $s
[ -f $s/demo.sh ] || cp /verif/tools/demo.sh $s/demo.sh
if ! git diff --quiet; then git diff > $s/patch.diff; git checkout -q -- .; fi
export DEMO_TARGET_DIR=/tmp/plant/dt
bash $s/demo.sh > /tmp/plant/clean.log 2>&1; c=$?
git apply $s/patch.diff || exit 1
cargo nextest run --workspace --lib --bins --tests --offline --no-fail-fast --test-threads 8 --no-tests=pass --tool-config-file vp:/opt/vp/nextest.toml --profile vp > /tmp/plant/test.log 2>&1; tst=$?
sum=$(grep -a Summary /tmp/plant/test.log | tail -1)
bash $s/demo.sh > /tmp/plant/bad.log 2>&1; b=$?
git checkout -q -- .
ok=NO; [ $c = 0 ] && [ $b != 0 ] && [ $b != 3 ] && [ $tst = 0 ] && ok=OK
echo "$id: $ok clean=$c patched=$b tests=$tst $sum"
[ $ok = OK ] || { tail -5 /tmp/plant/clean.log; tail -20 /tmp/plant/bad.log; grep -aE "error|FAIL" /tmp/plant/test.log | head; }
