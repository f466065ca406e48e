#!/bin/bash
# seedtest.sh ID...: validates /verif/seeded/ID in a scratch copy: builds, stable tests pass, demo passes before and fails after
. /opt/vp/env.sh
S=/tmp/sc
[ -d $S ] || cp -a /repo $S
for id in "$@"; do
d=/verif/seeded/$id
git -C $S -c filter.lfs.smudge= -c filter.lfs.process= -c filter.lfs.required=false checkout -q -- .; [ $(git -C $S rev-parse HEAD) = $(git -C /repo rev-parse HEAD) ] || { rm -rf /tmp/sc; cp -a /repo $S; }
rm -rf /tmp/sd_$id; cp -r $d /tmp/sd_$id; rm -f /tmp/sd_$id/*.diff /tmp/sd_$id/meta.json
(cd $S && bash /tmp/sd_$id/demo.sh >/tmp/sd_$id/log0 2>&1) || { echo "$id: demo fails on clean"; tail -30 /tmp/sd_$id/log0; }
git -C $S apply $d/patch.diff || { echo "$id: no apply"; continue; }
(cd $S && go build ./... && go test -json -vet=off -count=1 ./... > /tmp/sd_$id/t.json 2>/dev/null; python3 /opt/vp/results.py /tmp/sd_$id/r.json gojson:/tmp/sd_$id/t.json
python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/sd_$id/r.json'))['passed'])
print('$id: stable failing:',sorted(b-p))")
(cd $S && bash /tmp/sd_$id/demo.sh >/tmp/sd_$id/log1 2>&1) && echo "$id: demo does not fail with the patch" || { echo "$id: demo fails with patch (good)"; grep -m3 "demo\|FAIL" /tmp/sd_$id/log1; }
git -C $S -c filter.lfs.smudge= -c filter.lfs.process= -c filter.lfs.required=false checkout -q -- .
rm -rf /tmp/sd_$id
done
