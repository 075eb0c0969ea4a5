#!/bin/sh
# builds the simulator and runs its determinism self-test
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
cd "$here/sim" || exit 2
export CARGO_TARGET_DIR="$here/target"
cargo build --release --offline >"$here/target.log" 2>&1 || { tail -40 "$here/target.log"; exit 2; }
exec "$here/target/release/s3sim" selftest 48
