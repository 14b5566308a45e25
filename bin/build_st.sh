#!/bin/bash
# Mirrors /repo's working tree and builds the second simulator (the state-test runner) against it;
# without the command line if the binary's source no longer has the shape the mirror expects.
set -euo pipefail
VERIF="$(cd "$(dirname "$0")/.." && pwd)"
. "$VERIF/bin/env.sh"
mkdir -p "$VERIF/build"
python3 "$VERIF/bin/mirror.py"
cd "$VERIF/strun"
if grep -qs sim_cli "${MEGASIM_WS:-$VERIF/build/ws}/crates/state-test/src/lib.rs"; then
  cargo build --release --offline --features cli "$@" && exit 0
fi
cargo build --release --offline "$@"
