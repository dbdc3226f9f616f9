#!/bin/bash
# check.sh ID [--replay FILE]: Python side, called by ../check.sh
ID=$1
shift
cd "$(dirname "$0")/.." || exit 2
. ./env.sh || exit 2
. ./py/lib.sh || exit 2
build_py || exit 2
export PYTHONPATH=$PKG:$PYLIBS:$VERIF_ROOT/py PYTHONHASHSEED=0 VERIF_CORE=$CARGO_TARGET_DIR/release/core
LIMIT=${VERIF_LIMIT:-$([ "$VERIF_TIER" = thorough ] && echo 21600 || echo 600)}
timeout -k 5 "$LIMIT" "$PYBIN" -P "py/$(echo "$ID" | tr 'A-Z' 'a-z').py" "$@"
RC=$?
case $RC in
0 | 1) exit $RC ;;
esac
echo "ERROR: check $ID ended with status $RC"
exit 2
