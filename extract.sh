#!/bin/bash
# Build the fact extractor and dump the facts of /repo's current tree.
# Prints the facts directory on the last line.  usage: extract.sh [default|nodefault]
set -u
here=$(cd "$(dirname "$0")" && pwd)
conf=${1:-default}
repo=${VERIF_REPO:-/repo}
cache=${VERIF_CACHE:-$here/.cache}
mkdir -p "$cache" 2>/dev/null && touch "$cache/.w" 2>/dev/null || cache=/tmp/verif-cache
mkdir -p "$cache"
export PATH=/root/.cargo/bin:$PATH CARGO_HOME=${CARGO_HOME:-/root/.cargo}
N=nightly-x86_64-unknown-linux-gnu
unset RUSTFLAGS RUSTC RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTUP_TOOLCHAIN
SYS=$(rustc +$N --print sysroot) || exit 3
exec 9>"$cache/.lock"; flock 9
dh=$(sha256sum "$here/driver/main.rs" | cut -c1-16)
drv=$cache/vfacts-$dh
if [ ! -x "$drv" ]; then
  rustc +$N --edition 2021 -O "$here/driver/main.rs" -o "$drv.tmp" --cap-lints allow >&2 || exit 3
  mv "$drv.tmp" "$drv"
fi
# content hash of everything cargo may read
th=$( (cd "$repo" && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name 'Cargo.lock' -o -name '*.md' -o -path './crates/*' \) -print0 | sort -z | xargs -0 sha256sum; echo $dh $conf) | sha256sum | cut -c1-24)
F=$cache/facts-$conf-$th
if [ -f "$F/.ok" ]; then echo "$F"; exit 0; fi
# keep only the newest facts directories of this configuration
ls -dt "$cache"/facts-$conf-* 2>/dev/null | tail -n +4 | while read -r d; do find "$d" -delete; done
T=$cache/target-$conf
mkdir -p "$T" "$F"
# make cargo re-run the extractor on every workspace crate
find "$T" -type d \( -name 'zune*' -o -name 'zil*' \) -prune -exec find {} -delete \; 2>/dev/null
cp "$repo/Cargo.lock" "$cache/Cargo.lock"
export CARGO_RESOLVER_LOCKFILE_PATH=$cache/Cargo.lock CARGO_TARGET_DIR=$T FACTS_OUT=$F
export RUSTC_WORKSPACE_WRAPPER=$drv LD_LIBRARY_PATH=$SYS/lib CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=false CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
cd "$repo" || exit 3
case $conf in
  default) want=19; args="--workspace --lib --exclude benchmarks" ;;
  nothreads) want=4; args="--no-default-features --lib -p zune-imageprocs" ;;
  nodefault) want=12; args="--no-default-features --lib -p zune-core -p zune-bmp -p zune-farbfeld -p zune-gif -p zune-hdr -p zune-inflate -p zune-jpeg -p zune-jpegxl -p zune-png -p zune-ppm -p zune-psd -p zune-qoi" ;;
esac
for try in 1 2; do
  if ! cargo +$N check --offline $args >"$cache/log-$conf" 2>&1; then tail -n 40 "$cache/log-$conf" >&2; exit 3; fi
  [ "$(ls "$F" | wc -l)" -ge $want ] && break
  find "$T" -delete; mkdir -p "$T"
done
[ "$(ls "$F" | wc -l)" -ge $want ] || { echo "incomplete facts" >&2; exit 3; }
touch "$F/.ok"
echo "$F"
