#!/bin/bash
# runs the repository's own tests and reports the difference to the recorded baseline
OUT=$(mktemp)
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILED"
bash /opt/vp/test.sh "$OUT" >/dev/null 2>&1
/usr/bin/python3 - "$OUT" <<'P'
import json, sys
o = json.load(open(sys.argv[1])); b = json.load(open('/opt/vp/BASELINE.json'))
lost = sorted(set(b['stable']) - set(o['passed']))
print('passed', len(o['passed']), 'stable', len(b['stable']), 'lost', len(lost), *lost[:10], sep=' ')
P
rm -f "$OUT"
