#!/bin/bash
# developer tool: run the check of one planted bug on /repo with the patch applied, then undo it
ID=$1; P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
cd /verif && python3 check.py $P quick; echo "$ID $P rc=$?"
