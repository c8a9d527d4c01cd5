#!/bin/bash
# trybug.sh ID...: confirms planted bugs in a scratch copy of /repo: builds,
# passes the tests, demo fails with and passes without, check catches.
root=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
for id in "$@"; do
  d=$root/seeded/$id
  prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  S=$(mktemp -d); W=$S/repo; cp -a /repo "$W"
  demo=$S/demo; cp -r "$d" "$demo"; rm -f "$demo"/*.diff "$demo"/meta.json
  (cd "$W" && timeout 300 bash "$demo/demo.sh" >"$S/out0" 2>&1); r0=$?
  [ $r0 = 0 ] || { echo "$id: demo fails on the unchanged tree"; tail -20 "$S/out0"; }
  if git -C "$W" apply "$d/patch.diff" && (cd "$W" && go build ./...); then
    sed "s#/repo#$W#g" /opt/vp/test.sh > "$S/test.sh"
    t=$(bash "$S/test.sh" "$S/t.json" 2>&1 | tail -1)
    (cd "$W" && timeout 300 bash "$demo/demo.sh" >"$S/out1" 2>&1); r1=$?
    [ $r1 = 0 ] && tail -5 "$S/out1"
    c=$(cd "$root" && VERIF_REPO=$W VERIF_SEED=1 ./check $prop quick 2>&1); rc=$?
    echo "$id [$prop]: tests: $t; demo: $r0 -> $r1; check exit $rc: $(echo "$c" | grep -A1 '^violation' | tr '\n' ' ' | cut -c1-200) $(echo "$c" | tail -1 | cut -c1-90)"
  else echo "$id: does not apply or build"; fi
  rm -rf "$S"
done
