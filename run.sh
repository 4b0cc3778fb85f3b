#!/bin/bash
# run.sh <ID> [quick|thorough] [more arguments for vp-check]: rebuilds from /repo's working tree and runs one check.
# run.sh --build: only builds.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/scope/env.sh
export CARGO_TARGET_DIR=$HERE/build/target CARGO_NET_OFFLINE=true
export VP_ROOT=$HERE
id=${1:-}; tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
mkdir -p "$HERE/build"
build() { # crate
    (cd "$HERE/$1" && flock "$HERE/build/lock" cargo build --offline --locked -q 2>"$HERE/build/$1.log") && return 0
    tail -n 60 "$HERE/build/$1.log" >&2
    echo "error: $1 does not build against /repo's working tree" >&2
    exit 2
}
main() { python3 "$HERE/tools/mirror.py" "$HERE/build/mirror" && build harness; }
jwe() { python3 "$HERE/tools/mirror.py" "$HERE/build/mirror-jwe" --jwe "$HERE/josekit-shim" && build harness-jwe; }
case $id in
--replay) case $tier in *C26-*) jwe; exec "$CARGO_TARGET_DIR/debug/vp-check-jwe" --replay "$tier" ;; esac; main; exec "$CARGO_TARGET_DIR/debug/vp-check" --replay "$tier" ;;
--build) main; [ -d "$HERE/harness-jwe" ] && jwe; exit 0 ;;
C26) jwe; exec "$CARGO_TARGET_DIR/debug/vp-check-jwe" "$id" --tier "$tier" "$@" ;;
*) main; exec "$CARGO_TARGET_DIR/debug/vp-check" "$id" --tier "$tier" "$@" ;;
esac
