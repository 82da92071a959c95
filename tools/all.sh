#!/bin/bash
# run every claimed check; print the summary lines
cd "$(dirname "$0")/.."
for c in ${@:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}; do
  bash check $c > /tmp/all_$c.txt 2>&1; echo "rc=$? $(grep -E "^(C[0-9]+:|VIOLATION|KNOWN)" /tmp/all_$c.txt | cut -c1-200)"
done
