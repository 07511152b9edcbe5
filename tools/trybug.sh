#!/bin/bash
# trybug.sh ID [PROP]: apply a planted bug to /repo, run its property's check, undo it
D=/verif/seeded/$1; P=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
cd /verif
git -C /repo apply "$D/patch.diff" || exit 2
timeout 900 ./check $P --tier ${TIER:-quick} > /tmp/trybug.out 2>&1; rc=$?
git -C /repo checkout -- .
echo "$1 $P rc=$rc $(grep -m1 VIOLATION /tmp/trybug.out | cut -c1-200)"
