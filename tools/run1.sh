#!/bin/bash
# tools/run1.sh NAME [args]: build and run one harness on 8 shards, showing violations and counters
cd "$(dirname "$0")/.."; n=$1; shift
python3 tools/b.py $n > build/b.log 2>&1 || { grep -E "error|Error" build/b.log | head -${ERR:-12} | cut -c1-400; exit 1; }
s=$(date +%s.%N); for i in 0 1 2 3 4 5 6 7; do (timeout ${LIM:-400} build/bin/$n "$@" --shard $i/8 > build/o.$i 2>build/e.$i; echo "rc $?" >> build/o.$i) & done; wait
cat build/o.? | grep ^VIOL | cut -c1-${W:-420} | sort | uniq | head -${N:-30}; echo "viols $(cat build/o.? | grep -c ^VIOL)"
cat build/o.? | awk '/^STAT/{s[$2]+=$3} /^rc/{r=r" "$2} /HARNESS-ERR/{print} END{for(k in s) printf "%s=%d ",k,s[k]; print "rc" r}'; echo "$(date +%s.%N) - $s" | bc
