#!/bin/bash
# check.sh <property> <quick|thorough>: rebuild from /repo's working tree, then search.
set -uo pipefail
VERIF="$(cd "$(dirname "$0")" && pwd)"
cd "$VERIF"
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
case "$ID" in C24|C25) BUILD=bin/build_st.sh; SIM=strun ;; *) BUILD=bin/build.sh; SIM=megasim ;; esac
bash "$BUILD" >build.log.tmp 2>&1 || { cat build.log.tmp; rm -f build.log.tmp; echo "check.sh: build failed" >&2; exit 3; }
rm -f build.log.tmp
export MEGASIM_KNOWN="$VERIF/known_findings.txt"
exec build/target/release/$SIM run --property "$ID" --tier "$TIER" --seed "${VERIF_SEED:-1}" \
  --out "$VERIF/evidence/$ID.json" --scratch "$VERIF/build/scratch"
