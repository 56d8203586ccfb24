#!/bin/bash
# seedtest.sh ID [check]: applies a planted change to /repo, builds, tests, runs the demonstration
# (before and after) and, if asked to, the check of its property; undoes the change again.
id=$1; what=$2
S=/verif/seeded/$id
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=$(mktemp -d); cp -a $S/. $D/; rm -f $D/*.diff $D/meta.json
if [ "$what" != check ]; then
bash /opt/vp/build.sh >/tmp/seed.log 2>&1
bash $D/demo.sh >/tmp/seed.demo0 2>&1; d0=$?
fi
git apply $S/patch.diff || { echo "$id: does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .; rm -rf "$D"' EXIT
if [ "$what" != check ]; then
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1
miss=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); print(len(b-set(json.load(open('/tmp/seed.json'))['passed'])))")
bash $D/demo.sh >/tmp/seed.demo1 2>&1; d1=$?
echo "$id ($prop): demo unchanged=$d0 changed=$d1, stable tests failing=$miss"
fi
if [ -n "$what" ]; then
	(cd /verif && timeout 900 bin/check $prop > /tmp/seed.check 2>&1; echo "$id ($prop): check exit $?: $(grep -v '^$' /tmp/seed.check | head -1 | cut -c1-200)")
fi
git checkout -q -- .
