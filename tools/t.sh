#!/bin/bash
# t.sh IDS...: builds once and runs quick checks with classes (development helper)
cd /verif; ./run.sh --build || exit 2
for i in "$@"; do VP_ROOT=/verif ./build/target/debug/vp-check $i $A; tools/ev.sh $i; done
