#!/bin/bash
# developer tool: trybug.sh ID [PROP]: apply a planted bug to a scratch clone and run the property's check on it
ID=$1; P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
T=/tmp/try.$ID; rm -rf /tmp/try.$ID; git clone -q /repo $T && git -C $T apply /verif/seeded/$ID/patch.diff
cd /verif; VERIF_REPO=$T timeout 900 python3-vt check.py $P quick 2>&1 | grep -v " ok " | tail -${3:-6}
rm -rf $T
