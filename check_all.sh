#!/bin/bash
# runs the quick check of every claimed property; prints one line each
cd "$(dirname "$0")"
for p in $(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))"); do
	s=$(date +%s.%N); o=$(./check.sh $p "$@" 2>&1); r=$?
	printf '%s exit=%d %.1fs %s\n' $p $r $(echo "$(date +%s.%N) - $s" | bc) "$(echo "$o" | grep -E 'VIOLATION|inconclusive|KNOWN|reduced' | head -3 | tr '\n' ' ')"
done
