#!/bin/bash
# One check: build the simulator around /repo's working tree, search, report.
# usage: check.sh PROPERTY     (VERIF_SEED, VERIF_TIER, optionally SIM_BUDGET seconds)
cd "$(dirname "$0")/.." || exit 3
P=$1; TIER=${VERIF_TIER:-quick}; SEED=${VERIF_SEED:-1}
case $TIER in thorough) B=600;; *) TIER=quick; B=25;; esac
case $P/$TIER in C10/quick|C08/quick|C12/quick) B=35;; esac
B=${SIM_BUDGET:-$B}
. tools/configs.sh
mkdir -p .build evidence replays
D=$(mktemp -d "$PWD/.build/run.XXXXXX") || exit 3
trap 'rm -rf "$D"' EXIT
rc=0; parts=()
set -- $(configs_of "$P"); n=$#
for c in "$@"; do   # the usual build first; the other build options get a quarter of the search each
  b=$B; [ "$c" = default ] || b=$(python3 -c "print($B/4)")
  bash tools/build.sh "$D/$c" $(flags_of "$c") || { echo "the simulator could not be built around /repo ($c)" >&2; exit 3; }
  "$D/$c/sim" check "$P" --tier "$TIER" --seed "$SEED" --budget "$b" --workers "${SIM_WORKERS:-8}" --config "$c" \
    --evidence "$D/$c.json" --replays "$PWD/replays" --known "$PWD/known-findings.txt"
  r=$?; [ $r = 1 ] && rc=1; [ $r = 0 ] || [ $r = 1 ] || [ $rc = 1 ] || rc=3
  rm -rf "$D/$c"
  [ $rc = 0 ] || [ "$c" = default ] || break
  [ $rc = 1 ] && break
done
python3 - "$D" "evidence/$P.json" "$@" <<'PY'
import json,sys,os
D,out,cs=sys.argv[1],sys.argv[2],sys.argv[3:]
ev=[(c,json.load(open(f"{D}/{c}.json"))) for c in cs if os.path.exists(f"{D}/{c}.json")]
if not ev: sys.exit()
m=ev[0][1]
if len(ev)>1:
    keys=["evaluations","distinct_nontrivial","simulated_operations","distinct_states"]
    m["coverage"]["other_build_options"]={c:{k:e["coverage"].get(k) for k in keys} for c,e in ev[1:]}
    for c,e in ev[1:]:
        m["violations"]+=e["violations"]; m["wall_s"]+=e["wall_s"]
        if "violations_found" in e["coverage"]: m["coverage"].setdefault("violations_found",[]).extend(e["coverage"]["violations_found"])
json.dump(m,open(out,"w"))
PY
exit $rc
