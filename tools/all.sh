#!/bin/bash
# run every claimed check (tier $1, default quick)
cd /verif
for p in $(python3 -c "
import json
print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do s=$(date +%s); ./check.sh $p $1 > /tmp/o.$p 2>&1; echo $p $? $(( $(date +%s)-s ))s $(tail -1 /tmp/o.$p | cut -c1-150); done
