#!/bin/bash
# Builds from /repo's working tree into $1 (a scratch directory): the plain
# prover (goeland), the controlled engine (engine) and the checker (mcheck).
set -e
. /verif/env.sh
OUT=$1
REPO=${VERIF_REPO:-/repo/src}
mkdir -p "$OUT/src"
cd "$OUT"
(cd /verif/mc && go build -o "$OUT/mcheck" ./cmd/mcheck) & M=$!
(cd "$OUT/src" && goyacc -l -p TPTP -o "$OUT/src/tptp_parse.go" "$REPO/Parser/tptp_parse.y" >/dev/null 2>&1)
cat > "$OUT/plain.json" <<J
{"Replace": {"$REPO/Parser/tptp_parse.go": "$OUT/src/tptp_parse.go"}}
J
(cd /verif/mc && go build -o "$OUT/instr" ./cmd/instr)
(cd "$REPO" && go build -overlay "$OUT/plain.json" -o "$OUT/goeland" .)
"$OUT/instr" -repo "$REPO" -out "$OUT/src" -inoverlay "$OUT/plain.json" -overlay "$OUT/engine.json"
(cd "$REPO" && go build -overlay "$OUT/engine.json" -o "$OUT/engine" .)
# an engine with one more unit (the loader without the search)
case "${2:-all}" in
G09|G11|G12|all)
  mkdir -p "$OUT/drv"; cp /verif/overlay/driver/*.go /verif/overlay/dump/*.go "$OUT/drv/"
  sed "s#/verif/overlay/driver/#$OUT/drv/#g" "$OUT/engine.json" > "$OUT/dump.json"
  sed -i 's#"Replace": {#"Replace": {"'"$REPO/zz_dump.go"'": "'"$OUT/drv/zz_dump.go"'",#' "$OUT/dump.json"
  (cd "$REPO" && go build -overlay "$OUT/dump.json" -o "$OUT/dumper" .) || echo "no dumper";;
esac
U=""
case "${2:-all}" in
G15|G16|G17|G18) U="zzunif";;
G20) U="zzeq";;
all) U=$(cd /verif/units && ls -d zz* | grep -v zzref);;
esac
if [ -n "$U" ]; then
  { echo '{"Replace": {'
    for f in /verif/units/zz*/*.go; do r=${f#/verif/units/}; echo "\"$REPO/$r\": \"$f\","; done
    echo "\"$REPO/zvs/zvs.go\": \"/verif/overlay/zvs/zvs.go\","
    echo "\"$REPO/Parser/tptp_parse.go\": \"$OUT/src/tptp_parse.go\"}}"
  } > "$OUT/units.json"
  # the same with the rewritten synchronisation, for units that explore schedules
  { echo '{"Replace": {'
    for f in /verif/units/zz*/*.go; do r=${f#/verif/units/}; echo "\"$REPO/$r\": \"$f\","; done
    sed -e 's/"Replace": {//' -e 's/^{//' "$OUT/engine.json"
  } > "$OUT/unitsched.json"
  case "${2:-all}" in G15|G17|all) (cd "$REPO" && go build -overlay "$OUT/unitsched.json" -o "$OUT/zzunifs" ./zzunif) & P="$P $!";; esac
  case "${2:-all}" in G20|all) (cd "$REPO" && go build -overlay "$OUT/unitsched.json" -o "$OUT/zzeqs" ./zzeq) & P="$P $!";; esac
  for u in $U; do
    [ $u = zzeq ] && continue
    (cd "$REPO" && go build -overlay "$OUT/units.json" -o "$OUT/$u" ./$u) & P="$P $!"
  done
fi
wait $M
for p in $P; do wait $p; done
