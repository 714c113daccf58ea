#!/bin/bash
# runs every claimed check (or those named) one after another and prints its result and time
cd "$(dirname "$0")/.."; TIER=${TIER:-quick}
for id in ${@:-$(python3 -c "import sys;sys.path.insert(0,'tools');import plan;print(*plan.PLAN)")}; do
  s=$(date +%s); python3 tools/check.py $id $TIER > /tmp/run.$id.out 2>&1; rc=$?
  echo "$id rc=$rc $(( $(date +%s) - s ))s $(grep -E 'VIOLATION|KNOWN' /tmp/run.$id.out | head -2 | cut -c1-200) $([ $rc -gt 1 ] && tail -3 /tmp/run.$id.out | cut -c1-300)"
done
