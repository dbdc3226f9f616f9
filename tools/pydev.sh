#!/bin/bash
# pyrun.sh c26 N [SEED]
cd /verif; . ./env.sh; . py/lib.sh; build_py
export VERIF_SEED=${3:-1} PYTHONPATH=$PKG:$PYLIBS:$VERIF_ROOT/py PYTHONHASHSEED=0 VERIF_CORE=$CARGO_TARGET_DIR/release/core VERIF_CASES=$2 VERIF_LABELS=1 VERIF_ROOT=/tmp/vr
mkdir -p /tmp/vr/build/tmp
$PYBIN -P py/$1.py
