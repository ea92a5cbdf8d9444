#!/bin/bash
# seedcheck.sh ID [fast]: confirms a planted bug in a scratch copy mounted over
# /repo in a private mount namespace: demo passes on the clean tree, patch
# builds, demo fails, stable tests pass. "fast" skips the tests.
ID=$1; MODE=$2
if [ -z "$IN_NS" ]; then
  W=$(mktemp -d /tmp/sw.XXXXXX); cp -a /repo "$W/repo"; cp -a /verif/seeded/$ID "$W/seed"
  IN_NS=1 W=$W unshare -Urm bash "$0" "$ID" "$MODE"; r=$?
  case "$W" in /tmp/sw.*) rm -rf "$W";; esac
  exit $r
fi
mount --bind "$W/repo" /repo || exit 9
cd /repo
bash /opt/vp/build.sh >"$W/b0" 2>&1 || { echo "$ID: clean build fails"; tail -5 "$W/b0"; exit 1; }
timeout 300 bash "$W/seed/demo.sh" >"$W/d0" 2>&1 || { echo "$ID: demo fails on clean tree"; tail -5 "$W/d0" | cut -c1-300; exit 1; }
git apply "$W/seed/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >"$W/b1" 2>&1 || { echo "$ID: patched build fails"; tail -5 "$W/b1"; exit 1; }
if timeout 300 bash "$W/seed/demo.sh" >"$W/d1" 2>&1; then echo "$ID: demo passes with the patch"; tail -5 "$W/d1" | cut -c1-300; exit 1; fi
tail -2 "$W/d1" | cut -c1-300
if [ "$MODE" = fast ]; then echo "$ID: fast ok"; exit 0; fi
bash /opt/vp/test.sh "$W/t.json" >"$W/t.log" 2>&1
python3 - "$W/t.json" "$ID" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=json.load(open(sys.argv[1]))
m=sorted(b-set(t['passed']))
print(sys.argv[2]+":", "OK all stable tests pass" if not m else "TESTS BROKEN %d: %s"%(len(m),m[:4]))
sys.exit(bool(m))
P
