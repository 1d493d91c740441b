#!/bin/bash
# Same seeds, several worker counts and hash seeds, fresh interpreters: the digests must agree.
# usage: tools/determinism.sh RUNS [properties...]
cd "$(dirname "$0")/.." || exit 1
n=$1; shift
d=$(mktemp -d)
for c in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16}; do
  for k in "8 1" "5 4242" "3 77"; do
    set -- $k
    SIM_HASHSEED=$2 python3 check.py $c --runs $n --seconds 600 --workers $1 --trails $d/$c.$1 >/dev/null
  done
  cmp -s $d/$c.8 $d/$c.5 && cmp -s $d/$c.8 $d/$c.3 && echo "$c: $(wc -l <$d/$c.8) runs, three executions agree" || { echo "$c: DIFFERENT"; diff $d/$c.8 $d/$c.5 | head -3;  diff $d/$c.8 $d/$c.3 | head -3; }
done
rm -rf "$d"
