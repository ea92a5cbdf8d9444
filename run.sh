#!/bin/bash
# run.sh PROPERTY [TIER]: build from /repo's working tree, run one check.
export VERIF_T0=$(date +%s)
. /verif/env.sh
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
D=$(mktemp -d /tmp/verif-$PROP.XXXXXX) || exit 3
cleanup() { cd /; case "$D" in /tmp/verif-*) rm -rf "$D";; esac; }
trap cleanup EXIT
bash /verif/build.sh "$D" "$PROP" >"$D/build.log" 2>&1 || { cat "$D/build.log"; echo "build failed"; exit 3; }
mkdir -p "$D/work"
"$D/mcheck" "$PROP" "$TIER" "$D" "$D/work"
exit $?
