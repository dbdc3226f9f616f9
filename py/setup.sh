#!/bin/bash
# Builds what the Python checks need: the extension module and the core service from /repo, hypothesis from the wheelhouse.
cd "$(dirname "$0")/.." || exit 2
. ./env.sh || exit 2
. ./py/lib.sh || exit 2
build_py
