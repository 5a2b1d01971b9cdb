#!/bin/bash
# usage: seed.sh ID : confirms the diff of the scratch copy /tmp/mut/r as the planted bug seeded/ID.
# seeded/ID must hold demo.sh and what it needs; writes patch.diff. Work of the author, no part of a check.
# The scratch copy is made by: mkdir /tmp/mut; cp -a /repo /tmp/mut/r; cp -a /opt/vp /tmp/mut/vp;
# cd /tmp/mut/vp; sed -i 's#/opt/vp#/tmp/mut/vp#g; s#/repo#/tmp/mut/r#g' results.py test.sh lib/*.sh lib/*.py build.sh
d=/verif/seeded/$1; r=/tmp/mut/r
cd $r || exit 1
if [ -n "$(git diff)" ]; then git diff > $d/patch.diff; git checkout -q -- .; fi
[ "$(git rev-parse HEAD)" = "$(git -C /repo rev-parse HEAD)" ] || { echo "scratch copy is not at HEAD"; exit 1; }
x=$(mktemp -d); cp $d/* $x/; rm -f $x/*.diff $x/meta.json
demo() { (cd $r && timeout 300 bash $x/demo.sh > $x/out.$1 2>&1); }
demo clean; c=$?
git apply $d/patch.diff || { echo "patch does not apply"; exit 1; }
bash /tmp/mut/vp/build.sh > $x/build 2>&1 || { echo "DOES NOT BUILD"; tail -20 $x/build; }
bash /tmp/mut/vp/test.sh $x/t.json > $x/test 2>&1
python3 - $x/t.json <<'P'
import json,sys
t=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
passed=set(t.get('passed') or [])
bad=[x for x in b if x not in passed]
print("stable tests lost:", len(bad), bad[:5])
P
demo bug; b=$?
git -C $r checkout -q -- .
echo "$1: demo clean=$c bug=$b"; [ $c != 0 ] && tail -5 $x/out.clean; tail -4 $x/out.bug
rm -rf $x
