#!/bin/bash
# dev helper: runs every registered check (or those given) one after another and prints time and last lines
cd /verif
[ $# -eq 0 ] && set -- $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
bash run.sh build || exit 3
for p in "$@"; do
  s=$(date +%s.%N); out=$(bash run.sh $p 2>&1); rc=$?; e=$(date +%s.%N)
  printf "%s rc=%d %.1fs %s\n" $p $rc $(echo "$e-$s"|bc) "$(echo "$out" | tail -1 | cut -c1-200)"
  echo "$out" | grep -E "VIOLATION|unconfirmed" | grep -v " 0 unconfirmed" | cut -c1-300
done
