#!/bin/sh
# One seed is one execution: the digests of all event logs, schedules, fault
# and step counts must not depend on the repetition, the number of workers or
# the hash seed of the interpreter that runs the simulator.
# usage: tools/determinism.sh [families]
cd "$(dirname "$0")/.." || exit 2
n=${1:-30}
bad=0
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15; do
    first=
    for how in "8 0" "8 0" "1 0" "3 0" "8 99"; do
        set -- $how
        d=$(MDTOC_JOBS=$1 MDTOC_HASHSEED=$2 python3 check.py $p \
            --count "$n" --wall 600 --digest | grep -i digest)
        [ -n "$first" ] || first=$d
        if [ -z "$d" ] || [ "$d" != "$first" ]; then
            echo "$p: workers $1, hash seed $2: $d instead of $first"
            bad=1
        fi
    done
    echo "$p: $first"
done
exit $bad
