#!/bin/bash
# usage: tools/determinism.sh [N]   event-log digests of the first N runs of every check, under different worker counts and hash seeds
cd "$(dirname "$0")/.." || exit 2
N="${1:-60}"; bad=0
for f in vsim/checks/c*.py; do
  c="$(basename "$f" .py | tr c C)"
  a="$(VSIM_WORKERS=8 PYTHONHASHSEED=0 ./check "$c" --n "$N" --digests | grep -E '^[0-9]+ ' | sort -n | sha256sum)"
  b="$(VSIM_WORKERS=3 PYTHONHASHSEED=4711 ./check "$c" --n "$N" --digests | grep -E '^[0-9]+ ' | sort -n | sha256sum)"
  if [ "$a" = "$b" ]; then echo "$c same ${a:0:16}"; else echo "$c DIFFERENT"; bad=1; fi
done
exit $bad
