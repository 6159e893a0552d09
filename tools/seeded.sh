#!/bin/bash
# usage: tools/seeded.sh [-a] ID...   runs the check of each planted bug's property (-a: all checks) against a scratch copy of /repo with the bug applied
ALL=0; [ "$1" = -a ] && { ALL=1; shift; }
V="$(cd "$(dirname "$0")/.." && pwd)"
for id in "${@:-$(ls "$V/seeded")}"; do for b in $id; do
  T="$(mktemp -d /tmp/seeded-XXXXXX)"
  git -C /repo archive HEAD | tar -x -C "$T"
  (cd "$T" && git init -q && git apply "$V/seeded/$b/patch.diff") || { echo "$b: patch does not apply"; rm -rf "$T"; continue; }
  p="$(/usr/bin/python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$V/seeded/$b/meta.json")"
  checks="$p"; [ $ALL = 1 ] && checks="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C22 C24 C25 C26 C27 C28 C29"
  for c in $checks; do
    t0=$(date +%s); out="$(VSIM_REPO="$T" "$V/check" $c 2>&1)"; rc=$?
    echo "$b $c rc=$rc $(($(date +%s)-t0))s $(echo "$out" | grep -m1 '^violation class' | cut -c1-110)"
  done
  rm -rf "$T"
done; done
