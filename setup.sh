#!/bin/bash
# Builds the harness from the committed files and /repo's working tree, offline.
root=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="$root/target" CARGO_NET_OFFLINE=true
cd "$root/harness" && cargo build --offline --locked
