#!/bin/bash
# revertfix.sh: takes each "fix:" commit back in a scratch copy and shows whether its property's check sees it.
V=$(cd "$(dirname "$0")/.." && pwd)
python3 -c '
import json
for l in json.load(open("'$V'/known_findings.json"))["fixed"]:
    w=l.split(); print(w[1].split("=")[1], w[2])' | while read p h; do
  [ -z "$1" ] || [ "$1" = "$p" ] || continue
  W=$(mktemp -d /tmp/rev.XXXXXX); cp -a /repo/. $W/
  git -C $W revert -n $h >/dev/null 2>&1 || { echo "$p $h: revert conflicts"; rm -rf "$W"; continue; }
  o=$(VERIF_REPO=$W $V/check.sh $p 2>&1 </dev/null); echo "$p $h rc=$? $(echo "$o" | grep -o 'class=[^ ]*' | head -1)"
  rm -rf "$W"
done
