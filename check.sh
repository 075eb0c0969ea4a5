#!/bin/sh
# check.sh PROPERTY [quick|thorough]: builds the simulator against /repo's
# working tree and runs the seeded search for one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-quick}
. /opt/vp/env.sh >/dev/null 2>&1
cd "$here/sim" || exit 2
export CARGO_TARGET_DIR="$here/target"
if ! cargo build --release --offline >"$here/target.log" 2>&1; then
    tail -40 "$here/target.log"
    echo "check.sh: the simulator does not build against /repo" >&2
    exit 2
fi
cd "$here" || exit 2
exec "$here/target/release/s3sim" check "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}"
