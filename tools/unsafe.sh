#!/bin/bash
# usage: unsafe.sh OUT.tsv [scratch target dir]
# Compiles /repo's crate with unsafe code forbidden; lists every use of it.
V=$(cd "$(dirname "$0")/.." && pwd)
OUT=$1
T=${2:-$(mktemp -d)}
export RUSTFLAGS="-F unsafe_code"
mkdir -p "$T"
export CARGO_TARGET_DIR=$T
H=$V/harness
if [ -n "$VREPO" ]; then
  mkdir -p "$T/harness" && cp -r "$V/harness/src" "$V/harness/Cargo.toml" "$V/harness/Cargo.lock" "$T/harness/"
  sed -i "s#path = \"/repo\"#path = \"$VREPO\"#" "$T/harness/Cargo.toml"
  H=$T/harness
fi
cd "$H" || exit 2
cargo +nightly check --offline --locked -q --message-format=json > "$T/unsafe.json" 2> "$T/unsafe.err"
rc=$?
python3 - "$T/unsafe.json" "$OUT" $rc <<'P'
import json, sys
n = 0
with open(sys.argv[2], 'w') as o:
    for l in open(sys.argv[1]):
        try:
            d = json.loads(l)
        except ValueError:
            continue
        m = d.get('message')
        if d.get('reason') != 'compiler-message' or m['level'] != 'error' or not m['spans']:
            continue
        s = m['spans'][0]
        n += 1
        o.write('%s\t%d\t%s\n' % (s['file_name'], s['line_start'], m['message'].replace('\t', ' ').split('\n')[0]))
sys.exit(0 if n or sys.argv[3] == '0' else 2)
P
