#!/bin/bash
# seedtest.sh ID [check]: confirm a planted change in a scratch copy of /repo: applies, tests pass, demo 0 -> nonzero;
# with "check", also run the property's quick check against the scratch copy
ID=$1; S=/verif/seeded/$ID
R=/tmp/seed-$ID; rm -rf "/tmp/seed-$ID"; cp -a /repo $R; cd $R || exit 1
. /opt/vp/env.sh >/dev/null 2>&1
D=/tmp/seeddemo-$ID; rm -rf "/tmp/seeddemo-$ID"; cp -a $S $D; rm -f $D/patch.diff $D/meta.json
bash $D/demo.sh >/tmp/seeddemo-$ID.a 2>&1; a=$?
git apply $S/patch.diff || { echo "$ID: does not apply"; exit 1; }
bash $D/demo.sh >/tmp/seeddemo-$ID.b 2>&1; b=$?
PYTHONDONTWRITEBYTECODE=1 timeout 600 python -m pytest -q -p no:cacheprovider --basetemp=/tmp/seedtmp-$ID --timeout=300 --continue-on-collection-errors -W ignore --tb=no \
    --ignore=tests/cli/test_cli.py --ignore=tests/webapi --ignore=tests/ui/test_compare.py --ignore=tests/ui/test_inspect.py \
    -o junit_family=xunit2 --junitxml=/tmp/seedj-$ID.xml tests >/tmp/seedtest-$ID.log 2>&1
lost=$(python3 - $ID <<'P'
import json,sys,xml.etree.ElementTree as E
ok=set()
for t in E.parse('/tmp/seedj-%s.xml'%sys.argv[1]).iter('testcase'):
    if not any(c.tag in('failure','error','skipped') for c in t): ok.add(t.get('classname')+'::'+t.get('name'))
print(sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-ok))
P
)
echo "$ID: demo clean=$a patched=$b lost=$lost"
if [ "$2" = check ]; then P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
 cd /verif && DST_REPO=$R timeout 880 ./check.sh $P quick 2>&1 | grep -E "violation:|VIOLATION|runs in|harness" | cut -c1-300; fi
rm -rf "/tmp/seed-$ID" "/tmp/seeddemo-$ID" "/tmp/seedtmp-$ID"
