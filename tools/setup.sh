#!/bin/bash
# Compiles the simulator once, so that the checks only compile the library.
cd "$(dirname "$0")/.." || exit 1
. tools/configs.sh
mkdir -p .build; D=$(mktemp -d "$PWD/.build/run.XXXXXX") || exit 1
trap 'rm -rf "$D"' EXIT
for c in default real8 real8double16 real16 typecheck; do bash tools/build.sh "$D/$c" $(flags_of $c) || exit 1; rm -rf "${D:?}/$c"; done
