#!/bin/bash
# seed_test.sh ID...: confirms planted bugs in a scratch copy (/tmp/sc) of /repo.
sc=/tmp/sc
for id in "$@"; do
  s=/verif/seeded/$id
  git -C $sc checkout -q -- . && git -C $sc clean -fdq -e target
  git -C $sc fetch -q /repo HEAD && git -C $sc reset -q --hard FETCH_HEAD
  ( cd $sc && bash $s/demo.sh >/tmp/demo0.log 2>&1 ); a=$?
  git -C $sc apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /tmp/sc_build.sh >/tmp/scb.log 2>&1; b=$?
  ( cd $sc && bash $s/demo.sh >/tmp/demo1.log 2>&1 ); c=$?
  bash /tmp/sc_test.sh /tmp/sct.json >/tmp/sct.log 2>&1
  t=$(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else None
r=json.load(open('/tmp/sct.json'))
print(len(r['passed']), 'failed:', r['failed'], 'missing:', sorted(b-set(r['passed']))[:5] if b else '')
P
)
  echo "$id: demo unchanged=$a build=$b demo patched=$c tests: $t"
  git -C $sc checkout -q -- .
done
