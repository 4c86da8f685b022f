#!/bin/bash
# ./check.sh ID [quick|thorough]   decides one property
# ./check.sh replay FILE           makes a recorded violation happen again
# Exit 0: held on everything explored; 1: violated; 2 or more: the check itself failed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ $# -ge 1 ] || { echo "usage: $0 ID [quick|thorough] | replay FILE"; exit 2; }
bash "$here/build.sh" || exit 2
bin=$here/target/release/ethsim
if [ "$1" = replay ]; then
    exec "$bin" replay "$2"
fi
tier=${2:-${VERIF_TIER:-quick}}
exec "$bin" check --prop "$1" --tier "$tier" --seed "${VERIF_SEED:-1}" --out "$here"
