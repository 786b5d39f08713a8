#!/bin/bash
# plant.sh ID...: confirm planted bugs and show which checks catch them. PLANT_CHECKS="P01 P02" overrides which checks run.
V=$(cd "$(dirname "$0")/.." && pwd)
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  D=$V/seeded/$id
  prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $D/meta.json)
  W=$(mktemp -d /tmp/plantdemo.XXXXXX); cp -a $D/. $W/; rm -f $W/*.diff $W/*.patch $W/meta.json
  git -C /repo checkout -q -- .
  (cd /repo && bash $W/demo.sh >/tmp/demo.clean 2>&1); a=$?
  git -C /repo apply $D/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/plant.build 2>&1 || { echo "$id: build failed"; tail -3 /tmp/plant.build; git -C /repo checkout -q -- .; continue; }
  miss=$(bash /tmp/bt.sh 2>/dev/null | grep missing)
  (cd /repo && bash $W/demo.sh >/tmp/demo.bug 2>&1); b=$?
  res=""
  for p in ${PLANT_CHECKS:-$prop}; do
    o=$($V/check.sh $p 2>&1); rc=$?
    res="$res $p:rc=$rc:$(echo "$o" | grep -o 'class=[^ ]*' | head -1)"
  done
  git -C /repo checkout -q -- .
  echo "$id [$prop] demo clean=$a bug=$b $miss checks:$res"
  rm -rf "$W"
done
