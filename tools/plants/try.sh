#!/bin/bash
# try.sh ID [CHECK...]: applies one planted bug to /repo, runs stable tests, demo and the checks (default: its property), undoes it
cd /verif
ID=$1; shift
P=$(python3 -c "import json;print(json.load(open('seeded/$ID/meta.json'))['property'])")
CH=${*:-$P}
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NOTEST" ]; then
  D=/tmp/demo-$ID; rm -rf /tmp/demo-$ID; cp -r seeded/$ID $D; rm -f $D/*.diff $D/meta.json
  [ -n "$SKIPCLEAN" ] || (cd /repo && bash $D/demo.sh >/tmp/demo.log 2>&1; echo "$ID demo clean rc=$?")
fi
git -C /repo apply --check /verif/seeded/$ID/patch.diff && git -C /repo apply /verif/seeded/$ID/patch.diff || { echo "$ID does not apply"; exit 1; }
if [ -z "$NOTEST" ]; then
  bash tools/stable.sh
  (cd /repo && bash $D/demo.sh >/tmp/demo.log 2>&1; echo "$ID demo bug rc=$? $(tail -1 /tmp/demo.log | cut -c1-150)")
  rm -rf /tmp/demo-$ID
fi
for c in $CH; do
  s=$(date +%s); ./check.sh $c >/tmp/chk.log 2>&1; rc=$?
  echo "$ID check $c rc=$rc $(( $(date +%s)-s ))s $(grep -v '^VIOL' /tmp/chk.log | tail -1 | cut -c1-300)"
  for f in $(git ls-files -o replays); do rm -f "/verif/$f"; done
done
rm -rf /verif/replays/*.json
