#!/bin/bash
# seedtest.sh [-c] [-n] ID...: confirm planted bugs: the demo passes without the patch; with it the
# library builds, its tests pass, the demo fails. With -c also run the property's check.
# -n: no build/test of the repository (quick). Developer tool; works in /repo and undoes everything.
chk=0; full=1
while [ "${1#-}" != "$1" ]; do case $1 in -c) chk=1;; -n) full=0;; esac; shift; done
for id in "$@"; do
	d=/verif/seeded/$id
	prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
	cd /repo
	bash $d/demo.sh > /tmp/seed.$id.clean 2>&1; c=$?
	git apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
	bash $d/demo.sh > /tmp/seed.$id.bug 2>&1; b=$?
	t=skipped
	if [ $full = 1 ]; then
		if bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.$id.test 2>&1; then :; fi
		t=$(python3 -c "
import json
o=json.load(open('/tmp/seed.json')); b=json.load(open('/opt/vp/BASELINE.json'))
bad=[x for x in b['stable'] if x not in o['passed']]
print('tests ok' if not bad else 'TESTS FAIL %s' % bad[:3])")
	fi
	r=
	if [ $chk = 1 ]; then r=$(cd /verif && timeout 900 python3 tools/check.py $prop 2>&1 | grep -v '^KNOWN\|^NOTE' | cut -c1-220 | tail -3); fi
	git checkout -q -- .
	v=OK; [ $c = 0 ] && [ $b != 0 ] && [ $b != 2 ] || v=BAD
	echo "$id ($prop): $v demo clean=$c bug=$b; $t; $r"
done
