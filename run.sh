#!/bin/bash
# run.sh <property> quick|thorough   decide one property on /repo's current working tree
# run.sh replay <file>               repeat one recorded case
# Exit 0: held on everything explored. Exit 1 + VIOLATION line: does not hold. Anything else: error of the check.
set -u
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR MC_PBE=$VERIF_DIR/target-pbe/debug/mc
cd "$VERIF_DIR" || exit 2
mkdir -p evidence
EXTRA=""
case ${1:-} in
    C01|C05|C08|C14|C17) EXTRA="pbe" ;;
    C19) EXTRA="front" ;;
    C25) EXTRA="feat" ;;
    replay) grep -q '"config": "pbe"' "$2" && EXTRA="pbe"; grep -q '"property": "C19"' "$2" && EXTRA="front"; grep -q '"property": "C25"' "$2" && EXTRA="feat" ;;
esac
bash "$VERIF_DIR/build.sh" $EXTRA || exit 2
ulimit -v 25165824
ulimit -c 0
if [ "$1" = replay ]; then
    exec "$VERIF_DIR/target/debug/mc" replay "$2"
fi
exec "$VERIF_DIR/target/debug/mc" check "$1" "$2"
