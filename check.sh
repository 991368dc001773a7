#!/bin/sh
# check.sh <property> [quick|thorough]: rebuilds the harness against /repo's
# working tree and runs one property's check.
here=$(cd "$(dirname "$0")" && pwd)
export VH_ROOT="$here"
tier=${2:-${VERIF_TIER:-quick}}
sh "$here/harness/build.sh" || { echo "the harness does not build against /repo" >&2; exit 2; }
exec "$here/harness/target/release/vh" check "$1" "$tier"
