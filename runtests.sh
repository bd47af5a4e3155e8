#!/bin/bash
# developer helper: build + run the repository's tests, report missing stable ones.
# The repository derives its version from git tags and cannot parse vcheck's tag, so hide that tag meanwhile.
T=$(git -C /repo rev-parse -q --verify refs/tags/vcheck-pass)
[ -n "$T" ] && { git -C /repo update-ref -d refs/tags/vcheck-pass; trap 'git -C /repo update-ref refs/tags/vcheck-pass '$T EXIT; }
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || echo BUILD FAILED
[ "$1" = build ] || bash /opt/vp/test.sh /tmp/out.json > /tmp/test.log 2>&1
[ "$1" = build ] || python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=json.load(open('/tmp/out.json'))
m=sorted(b-set(o['passed']));print('missing',len(m),m[:8])
P
