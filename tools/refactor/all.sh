#!/bin/bash
# all.sh DIR: all checks against DIR
cd /verif
for id in $(python3 -c "
import json
for c in json.load(open('MANIFEST.json'))['checks']: print(c.get('property') or c.get('property_id') or c.get('id'))"); do
 s=$(date +%s); o=$(VERIF_REPO=$1 VERIF_EVIDENCE=/tmp/ev ./check $id 2>&1); rc=$?; e=$(date +%s)
 echo "$id rc=$rc $((e-s))s"; [ $rc != 0 ] && echo "$o" | tail -15
done
