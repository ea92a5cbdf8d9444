#!/bin/bash
# seedrun.sh ID [PROP]: runs the check of a planted bug's property (or PROP)
# against a patched scratch copy; prints caught / MISSED.
ID=$1
PROP=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
D=$(mktemp -d /tmp/sr.XXXXXX); cp -a /repo "$D/repo"
(cd "$D/repo" && git apply /verif/seeded/$ID/patch.diff) || exit 9
VERIF_REPO=$D/repo/src bash /verif/build.sh "$D/b" "$PROP" >"$D/log" 2>&1 || { echo "$ID: build failed"; tail -3 "$D/log"; }
mkdir -p "$D/w"; T0=$(date +%s)
VERIF_SEED=1 timeout 900 "$D/b/mcheck" "$PROP" quick "$D/b" "$D/w" >"$D/out" 2>&1; r=$?
case $r in 1) v=caught;; 0) v=MISSED;; *) v="BROKEN($r)";; esac
echo "$ID $PROP $v $(( $(date +%s)-T0 ))s :: $(grep -a -A1 VIOLATION "$D/out" | sed -n 2p | cut -c1-200)"
[ $r -gt 1 ] && tail -3 "$D/out" | cut -c1-300
case "$D" in /tmp/sr.*) rm -rf "$D";; esac
