#!/bin/bash
# tools/seedcheck.sh ID...: applies each planted bug to /repo, builds, runs the tests, its demo and the check of its property, and undoes it.
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
	s=/verif/seeded/$id
	p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
	d=$(mktemp -d); cp -r $s/. $d; rm -f $d/*.diff $d/meta.json
	r="$id $p:"
	if [ -z "$NOBUILD" ]; then
	timeout 300 bash $d/demo.sh >/tmp/seed/demo0.log 2>&1 && r="$r clean-ok" || r="$r CLEAN-FAILS"
	fi
	git apply $s/patch.diff || { echo "$r does not apply"; continue; }
	if [ -z "$NOBUILD" ]; then
	bash /opt/vp/test.sh /tmp/seed/out.json >/tmp/seed/test.log 2>&1
	python3 - <<'P' && r="$r tests-ok" || r="$r TESTS-FAIL"
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed/out.json'))
st=b.get('stable_passing') or b.get('stable') or b.get('passed') or b.get('passing')
ps=set(o.get('passed') or o.get('passing'))
sys.exit(0 if set(st)<=ps else 1)
P
	timeout 300 bash $d/demo.sh >/tmp/seed/demo1.log 2>&1 && r="$r DEMO-PASSES" || r="$r demo-fails"
	fi
	if [ -z "$NOCHECK" ]; then
	out=$(cd /verif; python3-vt check.py $p 2>/tmp/seed/check.err); rc=$?
	r="$r check=$rc $(echo "$out" | grep VIOLATION | tail -1)"
	fi
	git apply -R $s/patch.diff
	rm -rf $d
	echo "$r"
done
git status --porcelain
[ -n "$NOBUILD" ] || bash /opt/vp/build.sh >/dev/null 2>&1
