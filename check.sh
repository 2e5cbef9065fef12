#!/bin/bash
# check.sh <property> [quick|thorough]  - build the monitor from /repo's current tree and run it
# check.sh build                        - only build
# check.sh replay <file>                - re-run a recorded violation
set -u
cd "$(dirname "$0")"
ROOT=$PWD
export VERIF_ROOT=$ROOT
REPO=${VERIF_REPO:-/repo}
. /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR=$ROOT/target CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS
mkdir -p "$ROOT/target" "$ROOT/evidence" "$ROOT/out"
exec 9>"$ROOT/target/.lock"
flock 9
# cargo goes by modification times; go by content
H=$( (cd "$REPO/solana" && find . -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -not -path './target/*' -not -path './node_modules/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat "$ROOT/target/.src" 2>/dev/null)" != "$H" ]; then
  (cd harness && for p in ntt-messages example-native-token-transfers ntt-transceiver ntt-quoter wormhole-governance dummy-transfer-hook; do
    cargo clean --release --offline -p $p >/dev/null 2>&1
  done)
fi
if ! (cd harness && cargo build --release --offline) >"$ROOT/target/build.log" 2>&1 &&
   # the message library's own API may have moved: the programs can still be observed
   ! (cd harness && cargo build --release --offline --no-default-features) >>"$ROOT/target/build.log" 2>&1; then
  rm -f "$ROOT/target/.src"
  tail -40 "$ROOT/target/build.log" >&2
  echo "build failed" >&2
  exit 2
fi
echo "$H" >"$ROOT/target/.src"
flock -u 9
BIN=$ROOT/target/release/ntt-monitor
[ "$1" = build ] && exit 0
exec "$BIN" "$@"
