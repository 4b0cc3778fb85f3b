#!/bin/bash
# Runs demo.rs, which lies beside this file, as an integration test of the library just built.
# It uses a copy of the build's mirror of the repository, so that nothing there changes.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/scope/env.sh
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd /opt/vp/work && tar cf - --exclude=./target --exclude=./tests --exclude=./examples .) | tar xf - -C "$tmp" || exit 2
mkdir -p "$tmp/tests" && cp "$here/demo.rs" "$tmp/tests/demo.rs" || exit 2
export CARGO_TARGET_DIR="$tmp/target"
# The dependencies are compiled already: start from a copy of them.
mkdir -p "$tmp/target/debug" || exit 2
for d in build deps .fingerprint; do cp -a "/opt/vp/work/target/debug/$d" "$tmp/target/debug/" || exit 2; done
cd "$tmp" && timeout 280 cargo test --offline --all-features --test demo
