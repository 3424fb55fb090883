#!/bin/bash
# stable tests of /repo on each patched scratch tree (does the planted bug survive the repository's tests?)
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/tmp/seedtarget
for d in "$@"; do
  [ -d "$d" ] || d=/verif/seeded/$d
  (cd /tmp/seedwt && git checkout -q -f HEAD -- . && git apply "$d/patch.diff") || { echo "$d: patch fails"; continue; }
  (cd /tmp/seedwt && cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seedtests.log 2>&1)
  python3 /opt/vp/results.py /tmp/seedtests.json cargo:/tmp/seedtests.log >/dev/null
  python3 - "$d" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('/tmp/seedtests.json'))
print(sys.argv[1].split('/')[-1],'lost:',sorted(set(b)-set(t['passed']))[:4])
P
done
(cd /tmp/seedwt && git checkout -q -f HEAD -- .)
