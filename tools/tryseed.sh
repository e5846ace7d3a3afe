#!/bin/bash
# tryseed.sh <seed id> : validates /verif/seeded/<id> in a scratch worktree:
# patch applies, stable tests pass, demo passes without / fails with the patch;
# then runs the seed's property check (and any extra ids given) on the patched copy.
id=$1; shift
S=/verif/seeded/$id
W=/tmp/wt-$id
git -C /repo worktree remove --force $W >/dev/null 2>&1
git -C /repo worktree add -q --detach $W HEAD || exit 9
trap 'git -C /repo worktree remove --force '$W EXIT
D=$(mktemp -d); cp $S/demo.sh $D/; for f in $S/*; do case $f in *.diff|*meta.json) ;; *) cp -r $f $D/;; esac; done
. /opt/vp/env.sh
export PYTHONPATH=$W
(cd $W && timeout 300 bash $D/demo.sh >$D/log 2>&1) && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -5 $D/log; }
git -C $W apply $S/patch.diff || { echo "patch does not apply"; exit 9; }
(cd $W && timeout 300 bash $D/demo.sh >$D/log 2>&1) && echo "demo patched: PASSES (bad)" || echo "demo patched: fails (good)"
if [ -z "$NOTEST" ]; then
(cd $W && python -m pytest -q -n 8 -p no:cacheprovider --basetemp=$D/pt --timeout=300 -o junit_family=xunit2 --junitxml=$D/j.xml tests >$D/tlog 2>&1; tail -3 $D/tlog
python3 - $D/j.xml <<'P'
import json,sys,xml.etree.ElementTree as E
b=json.load(open('/opt/vp/BASELINE.json'))
st=b.get('stable') or b.get('passed') or b
st=set(st if isinstance(st,list) else st.keys())
ok=set()
for c in E.parse(sys.argv[1]).iter('testcase'):
    if not any(x.tag in('failure','error','skipped') for x in c):
        ok.add(c.get('classname')+'::'+c.get('name'))
miss=[s for s in st if s not in ok and s.split('junit:')[-1] not in ok]
print('stable', len(st), 'missing', len(miss), miss[:3])
P
)
fi
unset PYTHONPATH
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for p in $prop "$@"; do
  VSYM_REPO=$W timeout 900 bash /verif/run.sh $p quick > $D/clog 2>&1; rc=$?
  echo "check $p rc=$rc"; grep -m2 -B1 VIOLATION $D/clog; tail -1 $D/clog
done
rm -rf $D
