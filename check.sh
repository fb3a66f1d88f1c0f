#!/bin/bash
# check.sh <property>        one property, tier and seed from VERIF_TIER and VERIF_SEED
# check.sh replay <file>     replays a recorded violation
# Exit 0: held. 1: VIOLATION. 3: the check itself failed.
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/build.sh" || exit 3
export RUST_BACKTRACE=0
mkdir -p "$here/evidence"
sim="$here/harness/target/release/osmsim"
cd "$here" || exit 3
if [ "$1" = replay ]; then
    exec "$sim" replay "$2"
fi
"$sim" check "$1" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}"
rc=$?
case $rc in
    0|1) exit $rc ;;
    *) exit 3 ;;
esac
