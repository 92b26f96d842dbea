#!/bin/bash
# tools/plant.sh <seeded id> [check id ...]
# In a private mount namespace, over scratch copies of /repo and /verif: builds, runs the demo (must pass), applies the
# planted bug, runs the stable tests (must pass) and the demo (must fail), then the checks named (default: the bug's own).
V=/verif; ID=$1; shift
D=$V/seeded/$ID
[ -f $D/patch.diff ] || { echo "no $D/patch.diff"; exit 2; }
S=$(mktemp -d /tmp/plant.XXXXXX)
mkdir -p $S/repo $S/verif $S/demo
cp -a /repo/. $S/repo/ ; (cd $S/repo && git checkout -q -- . 2>/dev/null)
rsync -a --exclude=/seeded --exclude=/.git --exclude=/replays --exclude=/evidence $V/ $S/verif/
cp $D/patch.diff $S/patch; cp -a $D/. $S/demo/ ; rm -f $S/demo/*.diff $S/demo/meta.json
CH="$*"; [ -z "$CH" ] && CH=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
unshare -Urm bash -c "
mount --bind $S/repo /repo && mount --bind $S/verif /verif || exit 2
cd /repo
bash /opt/vp/build.sh >/tmp/plant.log 2>&1 || { echo 'clean build failed'; exit 2; }
timeout 300 bash $S/demo/demo.sh >$S/out1 2>&1; a=\$?
patch -s -p1 < $S/patch || { echo 'patch does not apply'; exit 2; }
bash /opt/vp/test.sh $S/t.json >/dev/null 2>&1
python3 - <<P
import json
o=json.load(open('$S/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable']
bad=[x for x in b if x not in set(o['passed'])]
print('stable tests:', 'pass' if not bad else 'FAIL %d %s'%(len(bad),bad[:3]))
P
timeout 300 bash $S/demo/demo.sh >$S/out2 2>&1; b=\$?
echo \"demo clean exit \$a (\$(tail -1 $S/out1)); planted exit \$b (\$(tail -1 $S/out2))\"
cd /verif
for c in $CH; do
 VERIF_SEED=\${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3-vt run.py \$c > $S/chk 2>&1; r=\$?
 echo \"check \$c exit \$r: \$(grep -E 'VIOLATION|held|no verdict' $S/chk | head -1)\"; grep -E '^C[0-9]+: case' $S/chk | cut -c1-300
done
"
rm -rf -- "$S"
