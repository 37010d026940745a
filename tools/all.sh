#!/bin/bash
# Runs every check: all.sh [quick|thorough]
cd "$(dirname "$0")/.."
for i in $(python3 -c "import json; print(*[json.loads(l)['id'] for l in open('properties.jsonl')])"); do
  s=$(date +%s); python3 bin/check.py $i --tier ${1:-quick} >/tmp/all-$i.log 2>&1; echo "$i rc $? $(( $(date +%s)-s )) s"
done
