#!/bin/bash
# trybug.sh <seeded dir> [CHECK...]: builds and tests a planted bug in a private copy of /repo
# (bind-mounted over /repo in a mount namespace) and runs its demonstration and the given checks.
D=$(realpath "$1"); shift
S=$(mktemp -d /tmp/trybug.XXXXXX)
cp -a /repo $S/repo; cp -a /opt/vp/work $S/work; mkdir $S/demo
cp -a $D/. $S/demo/; rm -f $S/demo/*.diff $S/demo/meta.json
cat > $S/run.sh <<E
mount --bind $S/repo /repo && mount --bind $S/work /opt/vp/work || exit 9
cd /repo
bash /opt/vp/build.sh > $S/b0.log 2>&1 || { echo BUILD0-FAIL; exit 1; }
bash $S/demo/demo.sh > $S/d0.log 2>&1; echo "demo clean: \$?"
git apply $D/patch.diff || { echo APPLY-FAIL; exit 1; }
bash /opt/vp/build.sh > $S/b1.log 2>&1 || { echo BUILD-FAIL; tail -5 $S/b1.log; exit 1; }
bash /opt/vp/test.sh $S/t.json > $S/t.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$S/t.json'))
def ok(d):
    for k in ('passed','pass','stable','tests'):
        if k in d: return set(d[k]) if not isinstance(d[k],dict) else set(x for x,v in d[k].items() if v in (True,'passed','pass'))
print('tests failing with the bug:', sorted(ok(b)-ok(t)))
P
cd /repo; bash $S/demo/demo.sh > $S/d1.log 2>&1; echo "demo bug: \$?"; tail -4 $S/d1.log
E
unshare -m bash $S/run.sh
for c in "$@"; do (cd /verif && rm -rf $S/cache; NMTVERIF_EVID=$S NMTVERIF_REPO=$S/repo python3 -m nmtverif check $c quick | cut -c1-300 | tail -8; echo "check $c: ${PIPESTATUS[0]}"); done
[ -n "$KEEP" ] || rm -rf $S
