#!/bin/bash
# tryseed.sh id [checks...]: demo clean, apply, build, tests, demo, checks, revert
id=$1; shift
cd /repo; git diff --quiet || { echo dirty; exit 1; }
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo clean build failed; exit 1; }
bash /verif/seeded/$id/demo.sh >/tmp/demo0.log 2>&1; echo "$id demo clean rc=$? (0)"; tail -3 /tmp/demo0.log
git apply /verif/seeded/$id/patch.diff || exit 1
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh >/tmp/b.log 2>&1 && echo built || { echo build failed; tail -5 /tmp/b.log; exit 1; }
bash /verif/seeded/$id/demo.sh >/tmp/demo1.log 2>&1; echo "demo bug rc=$? (non-0)"; tail -3 /tmp/demo1.log
bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1; python3 -c "
import json;j=json.load(open('/tmp/t.json'));print('tests', len(j['passed']),'passed',j['failed'])"
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
for c in ${@:-$P}; do python3 /verif/run.py $c | cut -c1-300 | head -6; done
