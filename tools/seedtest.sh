#!/bin/bash
# developer tool: validate one planted bug in overlay copies of /repo, /opt/vp and /verif (nothing real is touched)
# usage: seedtest.sh <seed-id> [--fast]   (--fast: no repository tests)
ID=$1; FAST=$2
O=/tmp/ov-$ID; rm -rf "/tmp/ov-$ID"; mkdir -p $O/{r,v,f}{u,w} /tmp/seedres
S=$(mktemp -d /tmp/seeddir.XXXX); cp -a /verif/seeded/$ID/. $S/
unshare -Urm bash -s <<X > /tmp/seedres/$ID.log 2>&1
mount -t overlay overlay -o userxattr,lowerdir=/repo,upperdir=$O/ru,workdir=$O/rw /repo
mount -t overlay overlay -o userxattr,lowerdir=/opt/vp,upperdir=$O/vu,workdir=$O/vw /opt/vp
mount -t overlay overlay -o userxattr,lowerdir=/verif,upperdir=$O/fu,workdir=$O/fw /verif
cd /repo; git update-ref -d refs/tags/vcheck-pass
bash $S/demo.sh > /tmp/seedres/$ID.demo0 2>&1; echo DEMO0=\$?
git apply $S/patch.diff || { echo APPLYFAIL; exit; }
bash /opt/vp/build.sh > /tmp/seedres/$ID.build 2>&1 || { echo BUILDFAIL; exit; }
bash $S/demo.sh > /tmp/seedres/$ID.demo1 2>&1; echo DEMO1=\$?
P=\$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
(cd /verif && python3 check.py \$P quick > /tmp/seedres/$ID.check 2>&1; echo CHECK \$P=\$?)
if [ "$FAST" != --fast ]; then bash /opt/vp/test.sh $O/out.json > /tmp/seedres/$ID.test 2>&1
python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=json.load(open('$O/out.json'))
m=sorted(b-set(o['passed']));print('TESTS missing',len(m),m[:8])"; fi
X
grep -hE "^(DEMO|APPLY|BUILD|CHECK|TESTS)" /tmp/seedres/$ID.log | tr '\n' ' '; echo " [$ID]"; grep -h VIOLATION /tmp/seedres/$ID.check; 
rm -rf "$O" "$S"
