#!/bin/bash
# Mirrors /repo's working tree and builds the simulator against it. Prints nothing on success.
set -euo pipefail
VERIF="$(cd "$(dirname "$0")/.." && pwd)"
. "$VERIF/bin/env.sh"
mkdir -p "$VERIF/build"
python3 "$VERIF/bin/mirror.py"
cd "$VERIF/sim"
cargo build --release --offline "$@"
