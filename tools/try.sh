#!/bin/bash
# try.sh BUG [PROPERTY]: run the property's check against one planted bug, then restore /repo
B=/verif/seeded/$1
P=${2:-$(/usr/bin/python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")}
git -C /repo apply $B/patch.diff || exit 9
cd /verif
VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python check.py $P | tail -${LINES_SHOWN:-4} | cut -c1-300
git -C /repo checkout -- .
