#!/bin/bash
# Re-executes a recorded run against /repo's working tree. usage: replay.sh FILE [-v]
# exit 1: the violation shows again; 0: it does not.
F=$(realpath "$1"); V=$2
cd "$(dirname "$0")/.." || exit 3
. tools/configs.sh
mkdir -p .build; D=$(mktemp -d "$PWD/.build/run.XXXXXX") || exit 3
trap 'rm -rf "$D"' EXIT
C=$(sed -n 's/^# build options: //p' "$F" | head -1)
bash tools/build.sh "$D" $(flags_of "${C:-default}") || exit 3
"$D/sim" replay "$F" $V --known "$PWD/known-findings.txt"
