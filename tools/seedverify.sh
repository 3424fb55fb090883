#!/bin/bash
# re-verify seeds: demo on clean and on patched scratch tree
for d in ${@:-/verif/seeded/*}; do
  [ -d "$d" ] || d=/verif/seeded/$d
  (cd /tmp/seedwt && git checkout -q -f HEAD -- . && git apply "$d/patch.diff") || { echo "$d: patch fails"; continue; }
  (cd /repo && bash "$d/demo.sh" >/tmp/d0.log 2>&1); a=$?
  (cd /tmp/seedwt && bash "$d/demo.sh" >/tmp/d1.log 2>&1); b=$?
  echo "$(basename $d) clean=$a patched=$b $(tail -1 /tmp/d1.log | cut -c1-120)"
  [ $a = 0 ] || tail -5 /tmp/d0.log
done
(cd /tmp/seedwt && git checkout -q -f HEAD -- .)
