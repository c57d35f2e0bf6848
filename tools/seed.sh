#!/bin/bash
# seed.sh ID [nocheck]: validates planted bug ID in a scratch copy and runs its property's check on it.
. /opt/vp/env.sh
ID=$1; S=/verif/seeded/$ID
W=/tmp/seedwork.$ID; rm -rf "$W"; cp -a /repo "$W" || exit 2
trap 'rm -rf "$W" "$W.out"' EXIT
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd "$W" || exit 2
bash "$S/demo.sh" >"$W.out" 2>&1 || { echo "$ID: DEMO FAILS ON CLEAN TREE"; cat "$W.out"; exit 1; }
git apply "$S/patch.diff" || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
go build ./... || { echo "$ID: DOES NOT BUILD"; exit 1; }
PK=$(go list -e ./... | grep -v '^github.com/alxarch/njson/internal/generator$')
go test -vet=off -count=1 $PK >"$W.out" 2>&1 || { echo "$ID: TESTS FAIL"; grep -m5 -e '---' "$W.out"; exit 1; }
timeout 300 bash "$S/demo.sh" >"$W.out" 2>&1 && { echo "$ID: DEMO PASSES WITH BUG"; exit 1; }
[ "$2" = nocheck ] && { echo "$ID ($P): valid"; exit 0; }
mkdir -p "$W.ev"
( cd /verif; VERIF_REPO=$W VERIF_OUT=$W.ev timeout 900 bin/check $P ) >"$W.out" 2>&1; rc=$?
rm -rf "$W.ev"
if [ $rc = 1 ] && grep -q "^VIOLATION property=$P " "$W.out"; then mkdir -p /tmp/catches; grep -oP '^# \K[^ ]+(?= case)' "$W.out" | sort -u > /tmp/catches/$ID; echo "$ID ($P): caught: $(grep -m1 '^#' "$W.out" | cut -c1-150)"; else echo "$ID ($P): MISSED rc=$rc: $(tail -1 "$W.out")"; fi
