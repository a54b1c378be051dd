#!/bin/bash
# seedlib.sh mk ID file 'perl expr'   make seeded/ID/patch.diff by editing a scratch copy of /repo
# seedlib.sh confirm ID...            apply in the scratch copy: build, stable tests, demo on both trees
# seedlib.sh catch ID...              run the property's check against the patched scratch copy
S=/tmp/sr; V=/verif/seeded; R=${SEED_REPO:-/repo}
fresh() { mkdir -p $S; rsync -rlpgoD --checksum --delete --exclude _build --exclude .git $R/ $S/ 2>/dev/null || { find $S -mindepth 1 -maxdepth 1 ! -name _build -exec rm -rf {} +; (cd $R && tar cf - --exclude=./_build --exclude=./.git .) | tar xf - -C $S; }; }
case $1 in
mk) fresh; id=$2; f=include/strf/$3; perl -0pi -e "$4" $S/$f
   mkdir -p $V/$id; (cd /tmp && diff -u $R/$f $S/$f | sed "1s#.*#--- a/$f#;2s#.*#+++ b/$f#" > $V/$id/patch.diff); cat $V/$id/patch.diff
   cat > $V/$id/demo.sh <<'D'
#!/bin/bash
# exit 0: behaves as documented; nonzero: broken. Everything it writes is in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=c++20 -O0 -g -w -fsanitize=address,undefined -fno-sanitize-recover=all -I include "$D/demo.cpp" -o "$W/demo" || exit 2
cd "$W" && ./demo
D
   git -C /repo apply --check $V/$id/patch.diff && echo applies;;
confirm) shift; for id in "$@"; do fresh
   (cd $S; bash $V/$id/demo.sh >/tmp/sr.demo 2>&1); a=$?
   (cd $S; patch -s -p1 < $V/$id/patch.diff); (cd $S; bash $V/$id/demo.sh >/tmp/sr.demo2 2>&1); b=$?
   sed "s#/repo#$S#g" /opt/vp/build.sh > /tmp/sr.build.sh; sed "s#/repo#$S#g;s#/opt/vp/build.sh#/tmp/sr.build.sh#" /opt/vp/test.sh > /tmp/sr.test.sh
   bash /tmp/sr.test.sh /tmp/sr.out.json > /tmp/sr.log 2>&1
   python3 - "$id" $a $b <<'P'
import json,sys
o=json.load(open('/tmp/sr.out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
st=b.get('stable') or b.get('passed') or b.get('tests') or b
bad=[t for t in st if t not in o['passed']]
print(sys.argv[1], 'demo unchanged', sys.argv[2], 'patched', sys.argv[3], 'tests:', len(o['passed']), 'passed; broken:', bad[:5], 'OK' if sys.argv[2]=='0' and sys.argv[3]!='0' and not bad else '*** NOT USABLE')
P
   done;;
catch) shift; for id in "$@"; do fresh; (cd $S; patch -s -p1 < $V/$id/patch.diff); p=$(python3 -c "import json;print(json.load(open('$V/$id/meta.json'))['property'])")
   (cd /verif; VERIF_REPO=$S timeout 900 python3-vt check.py $p > /tmp/sr.check 2>&1); echo "$id $p exit $? $(grep -m1 VIOLATION /tmp/sr.check)"; done; fresh;;
esac
