#!/bin/bash
# The simulator's own test: the same seed gives the same execution, whatever the
# number of jobs, the hash seed, and the history of the worker process.
# usage: dst/selftest.sh [runs per property] [properties...]
cd "$(dirname "$0")/.." || exit 2
n=${1:-24}; shift
props=${*:-$(seq -f 'C%02g' 1 19) C22 C23}
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
bad=0
for p in $props; do
  DST_NOSHRINK=1 PYTHONHASHSEED=1 ./check "$p" --runs "$n" --jobs 8 --traces "$tmp/a" >/dev/null 2>&1
  DST_NOSHRINK=1 PYTHONHASHSEED=77 ./check "$p" --runs "$n" --jobs 3 --traces "$tmp/b" >/dev/null 2>&1
  if cmp -s "$tmp/a" "$tmp/b"; then echo "$p same"; else
    echo "$p DIFFERENT"; bad=1
    /opt/venv/bin/python - "$tmp/a" "$tmp/b" <<'P'
import json, sys
a, b = (json.load(open(f)) for f in sys.argv[1:])
print([(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b), key=int) if a.get(k) != b.get(k)][:4])
P
  fi
done
exit $bad
