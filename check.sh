#!/bin/bash
# check.sh ID [--replay FILE]: builds the check of one property from /repo's working tree and runs it.
# exit 0 = held on everything explored, 1 = VIOLATION line printed, anything else = error of the check.
ID=${1:?usage: check.sh ID [--replay FILE]}
shift
cd "$(dirname "$0")" || exit 2
. ./env.sh || exit 2
case $ID in
C18 | C19 | C20 | C26) exec ./py/check.sh "$ID" "$@" ;;
esac
BIN=$(echo "$ID" | tr 'A-Z' 'a-z')
build_harness --bin "$BIN" || exit 2
# fd 3 carries the check's report; the solver's own prints on stdout are dropped
LIMIT=${VERIF_LIMIT:-$([ "$VERIF_TIER" = thorough ] && echo 21600 || echo 780)}
VERIF_FD3=1 timeout -k 5 "$LIMIT" "$CARGO_TARGET_DIR/release/$BIN" "$@" 3>&1 1>/dev/null
RC=$?
case $RC in
0 | 1) exit $RC ;;
esac
echo "ERROR: check $ID ended with status $RC"
exit 2
