#!/bin/bash
# Builds demo.rs (beside this script) as an integration test of the crate in /repo and runs it.
# Exit 0: the behaviour is as it should be; 1: it is not; everything is built in a scratch folder.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/offline/env.sh
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
cp -a /opt/vp/offline/ws "$tmp/ws" || exit 2
t=$tmp/ws/crates/mega-evm/tests/demo_lab
mkdir -p "$t" || exit 2
cp "$here/demo.rs" "$t/main.rs" && cp "$here/lab.rs" "$t/lab.rs" || exit 2
cd "$tmp/ws" || exit 2
cargo test --offline -p mega-evm --test demo_lab -- --test-threads 1 >"$tmp/log" 2>&1
rc=$?
tail -n 30 "$tmp/log"
[ $rc -eq 0 ] && exit 0
exit 1
