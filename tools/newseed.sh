#!/bin/bash
# newseed.sh ID PROPERTY "deps" "needs" "breaks" : scratch copy in /tmp/seedwt holds the change; main.rs on stdin

id=$1; d=/verif/seeded/$id; mkdir -p "$d"
cat > "$d/main.rs"
{ echo '#!/bin/bash'
echo 'here=$(cd "$(dirname "$0")" && pwd); export REPO=$(pwd); repo=$REPO'
echo 'export PATH=/root/.cargo/bin:$PATH'
echo 'w=$(mktemp -d) || exit 3; trap '"'"'find "$w" -delete'"'"' EXIT'
echo 'mkdir "$w/src"; cp "$here/main.rs" "$w/src/main.rs"; cp "$repo/Cargo.lock" "$w/Cargo.lock"'
echo 'cat > "$w/Cargo.toml" <<X'
echo '[package]'; echo 'name = "demo"'; echo 'version = "0.1.0"'; echo 'edition = "2021"'; echo '[dependencies]'
for x in $3; do n=${x%%:*}; f=${x#*:}; [ "$f" = "$x" ] && f=""; echo "$n = { path = \"\$repo/crates/$n\"$f }"; done
echo '[workspace]'; echo 'X'
echo 'cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q 2>"$w/log" || { tail -20 "$w/log"; exit 3; }'
echo 'cd "$w" && timeout 120 "$w/target/debug/demo"'
} > "$d/demo.sh"; chmod +x "$d/demo.sh"
(cd /tmp/seedwt && git diff HEAD -- . ':!Cargo.lock') > "$d/patch.diff"
python3 - "$d" "$2" "$4" "$5" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+'/meta.json','w'),indent=1)
P
# confirm: demo passes on HEAD, fails with the change
(cd /repo && bash "$d/demo.sh" >/tmp/d0.log 2>&1); a=$?
(cd /tmp/seedwt && bash "$d/demo.sh" >/tmp/d1.log 2>&1); b=$?
echo "$id clean=$a patched=$b"; tail -2 /tmp/d1.log | cut -c1-200
[ $a = 0 ] || tail -5 /tmp/d0.log
