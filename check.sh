#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the harness from /repo's working tree, then run a check.
root=$(cd "$(dirname "$0")" && pwd)
[ -n "$2" ] && export VERIF_TIER="$2"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="$root/target" CARGO_NET_OFFLINE=true
mkdir -p "$root/work"
log="$root/work/build-$$.log"
if ! (cd "$root/harness" && cargo build --offline --locked) >"$log" 2>&1; then
  tail -n 60 "$log"
  echo "error: the harness does not build"
  rm -f "$log"
  exit 3
fi
rm -f "$log"
exec "$root/target/debug/harness" run "$1" "$root"
