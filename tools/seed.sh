#!/bin/bash
# seed.sh new: makes a scratch copy of /repo in /tmp/seedw/repo
# seed.sh keep ID PROP PKG "needs" "breaks": turns the scratch copy's change into seeded/ID
#   (demo test: /tmp/seedw/demo_test.go, in package PKG) after confirming it.
set -u
S=/tmp/seedw
. /opt/vp/env.sh
case $1 in
new) rm -rf /tmp/seedw/repo; mkdir -p $S; cp -a /repo $S/repo; git -C $S/repo checkout -q -- . ;;
keep)
	d=/verif/seeded/$2; mkdir -p $d
	git -C $S/repo diff > $d/patch.diff
	[ -s $d/patch.diff ] || { echo "NO CHANGE"; exit 1; }
	cp $S/demo_test.go $d/demo_test.go.txt
	race=; grep -q '^// RACE' $S/demo_test.go && race=-race
	cat > $d/demo.sh <<X
#!/bin/bash
d=\$(cd "\$(dirname "\$0")" && pwd)
. /opt/vp/env.sh
t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
export GITHUB_ACTION=offline TMPDIR="\$t"
echo "{\"Replace\":{\"\$PWD/$4/zz_demo_test.go\":\"\$d/demo_test.go.txt\"}}" >"\$t/o.json"
go test $race -vet=off -count=1 -timeout 120s -overlay "\$t/o.json" -run TestDemo ./$4
X
	python3 - "$@" <<'P' > $d/meta.json
import json,sys
print(json.dumps(dict(property=sys.argv[3],needs=sys.argv[5],what_it_breaks=sys.argv[6]),indent=1))
P
	(cd /repo && bash $d/demo.sh >$S/log1 2>&1) || { echo "DEMO FAILS UNCHANGED"; tail -20 $S/log1; exit 1; }
	(cd $S/repo && go build ./... ) || { echo "NO BUILD"; exit 1; }
	(cd $S/repo && bash $d/demo.sh >$S/log2 2>&1) && { echo "DEMO PASSES PATCHED"; exit 1; }
	(cd $S/repo && GITHUB_ACTION=offline go test -vet=off -count=1 ./... >$S/log3 2>&1) || { echo "TESTS"; grep -E "^(---|FAIL)" $S/log3; }
	tail -5 $S/log2 | cut -c1-200
	/tmp/eng -prop $3 -repo $S/repo -verif /tmp/seedw/v 2>&1 | grep -E "VIOLATION|INCOMPLETE|unsupported" | cut -c1-250 | head -5
	;;
esac
