#!/bin/bash
# dev helper: dev.sh cNN CASES [SEED] - build one bin and run it with class counts in a scratch root
cd /verif; . ./env.sh; cd harness && cargo build --offline --release --bin $1 2>&1 | grep -E "^error" -A7
mkdir -p /tmp/vr; VERIF_SEED=${3:-1} VERIF_SLOW=${SLOW:-3} VERIF_ROOT=/tmp/vr VERIF_FD3=1 VERIF_LABELS=1 VERIF_CASES=$2 $CARGO_TARGET_DIR/release/$1 3>&1 1>/dev/null | cut -c1-900
