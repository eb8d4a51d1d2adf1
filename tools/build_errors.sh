#!/bin/bash
. /opt/vp/env.sh; export CARGO_TARGET_DIR=/verif/target; cd /verif/harness; cargo build --offline 2>&1 | grep -E "^error" -A9 | head -${1:-60}
