#!/bin/bash
# Builds everything once (fills the Go build cache where it survives).
set -e
D=$(mktemp -d /tmp/verif-setup.XXXXXX)
bash /verif/build.sh "$D" all
"$D/mcheck" selftest quick "$D" "$D"
rm -rf "$D"
