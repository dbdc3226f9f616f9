#!/bin/bash
# Builds every check once, offline, from the committed files.
cd "$(dirname "$0")" || exit 2
. ./env.sh || exit 2
build_harness --bins || exit 2
if [ -x py/setup.sh ]; then ./py/setup.sh || exit 2; fi
mkdir -p evidence
echo "setup done"
