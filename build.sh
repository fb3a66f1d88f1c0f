#!/bin/bash
# Builds the simulator, the tool under test (from /repo's working tree) and the shim, offline.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/harness" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/harness/target"
unset RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
log="$(cargo build --release --offline --locked 2>&1)" || { echo "$log" | tail -60 >&2; echo "harness error: the build fails" >&2; exit 3; }
log="$(gcc -O2 -Wall -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-builtin -shared -fPIC -o target/release/libosmshim.so.new shim/shim.c 2>&1)" || { echo "$log" >&2; echo "harness error: the shim does not build" >&2; exit 3; }
mv target/release/libosmshim.so.new target/release/libosmshim.so
