#!/bin/bash
# tools/seedtest.sh ID [notests] [PROP...]: confirm a planted bug in a scratch copy of /repo
# (applies, builds, passes the tests, demo fails with it and passes without),
# and run the checks of its property (or of the PROPs given) against it.
V=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; shift
D=$V/seeded/$ID
T=/tmp/seed-$ID
rm -rf "/tmp/seed-$ID"; mkdir -p $T
cp -a /repo $T/repo; rm -rf "$T/repo/target"
cd $T/repo
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 2; }
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
NT=0; [ "$1" = notests ] && { NT=1; shift; }
if [ $NT = 0 ]; then
  export CARGO_TARGET_DIR=$T/target
  for k in "--lib" "--test *" "--doc"; do
    set -f; timeout -k 10 300 cargo test --workspace --features gzip --no-fail-fast --offline $k -- --test-threads 8 --include-ignored > $T/log 2>&1; set +f
    grep -E '^(error|test .*FAILED)' $T/log | grep -v '^error: .*target' | sed "s/^/$ID: /"
  done
  mkdir $T/demo; cp $D/* $T/demo/; rm -f $T/demo/*.diff $T/demo/meta.json
  timeout 300 bash $T/demo/demo.sh > $T/dlog 2>&1; echo "$ID: demo with the patch: exit $?"; tail -2 $T/dlog
  git checkout -q -- .
  timeout 300 bash $T/demo/demo.sh > $T/dlog 2>&1; echo "$ID: demo without: exit $?"
  git apply $D/patch.diff
  unset CARGO_TARGET_DIR
fi
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
VREPO=$T/repo bash $V/tools/export.sh $T/ir.json $T/t || echo "$ID: export failed"
for p in $PROPS; do
  timeout 900 $V/analyzer/target/release/vanalyze $T/ir.json $p > $T/out 2>&1; echo "$ID: check $p exit $?"; grep -m2 ^VIOLATION $T/out
done
rm -rf "/tmp/seed-$ID"
