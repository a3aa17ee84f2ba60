#!/bin/bash
# usage: tools/seed.sh ID [check ids...]   development helper: try a planted bug in a scratch copy.
# It expects seeded/ID/{patch.diff,demo.sh,meta.json}; it is used by no check.
set -u
ID=$1; shift
HERE=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/seed_$ID
rm -rf "$S"; mkdir "$S"
git -C /repo archive HEAD | tar -x -C "$S"
mkdir "$S.demo"; cp "$HERE/seeded/$ID/"* "$S.demo/"; rm -f "$S.demo/patch.diff" "$S.demo/meta.json"
( cd "$S" && timeout 300 bash "$S.demo/demo.sh" >"$S.demo/clean.log" 2>&1 ); A=$?
( cd "$S" && git apply --unsafe-paths --directory="" "$HERE/seeded/$ID/patch.diff" 2>/dev/null || patch -s -p1 -d "$S" <"$HERE/seeded/$ID/patch.diff" ) || echo "PATCH FAILS"
( cd "$S" && timeout 300 bash "$S.demo/demo.sh" >"$S.demo/bug.log" 2>&1 ); B=$?
echo "$ID demo clean=$A patched=$B"
[ $A = 0 ] || tail -5 "$S.demo/clean.log"
[ $B != 0 ] || tail -5 "$S.demo/bug.log"
P=$(python3 -c "import json;print(json.load(open('$HERE/seeded/$ID/meta.json'))['property'])")
for c in "${@:-$P}"; do
  ( cd "$HERE" && EVOGIL_SRC=$S timeout 900 python3-vt check.py $c >"$S.demo/check.log" 2>&1 ); R=$?
  echo "$ID check $c rc=$R $(grep -m1 VIOLATION $S.demo/check.log)"
  [ $R = 1 ] || tail -3 "$S.demo/check.log"
done
rm -rf "$S" "$S.demo"
