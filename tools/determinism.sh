#!/bin/bash
# determinism.sh [COUNT] [PROP...]: runs each property's first COUNT runs in
# separate processes, twice with 8 workers, once with 3 and once with 1, under
# two seeds, and compares the digests of all histories and schedules.
root=$(cd "$(dirname "$0")/.." && pwd)
count=${1:-400}; shift
bin=$("$root/build.sh")/simcheck
bad=0
for p in ${@:-$("$bin" list)}; do
  for seed in 1 7; do
    first=
    for procs in 8 8 3 1; do
      d=$("$bin" run -prop $p -count $count -seed $seed -procs $procs 2>&1 | grep -o 'digest [0-9a-f]*' | tail -1)
      [ -z "$first" ] && first=$d
      if [ "$d" != "$first" ] || [ -z "$d" ]; then echo "$p seed $seed procs $procs: '$d', not '$first'"; bad=1; fi
    done
  done
done
[ $bad = 0 ] && echo "all the same"
exit $bad
