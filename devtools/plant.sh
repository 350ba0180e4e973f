#!/bin/bash
# plant.sh ID ["C01 C02"]: a planted bug on a scratch copy of /repo: demo on the clean copy, apply, build, demo,
# stable tests, checks (those of meta.json's property unless given); the copy is removed afterwards.
# SKIPTEST=1, SKIPCLEAN=1 leave parts out.
ID=$1; D=/verif/seeded/$ID; PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
PROPS=${2-$PROP}
X=$(mktemp -d /tmp/pl.XXXXXX); R=$X/r; mkdir $R; (cd /repo; tar cf - --exclude=./.git --exclude=./_build .) | tar xf - -C $R
mkdir $X/d; cp -r $D/* $X/d/; /bin/rm -f $X/d/*.diff $X/d/meta.json
sed "s#/repo#$R#g" /opt/vp/build.sh >$X/build.sh; sed "s#/repo#$R#g; s#/opt/vp/build.sh#$X/build.sh#" /opt/vp/test.sh >$X/test.sh
NATIVE=$(grep -c "^+++ .*\(src/cxx\|\.pyx\|\.pxd\)" $D/patch.diff)
cd $R
if [ -z "$SKIPCLEAN" ]; then (timeout 300 bash $X/d/demo.sh >$X/clean.log 2>&1); echo "$ID demo clean: $?"; tail -2 $X/clean.log; fi
git apply $D/patch.diff || { echo "$ID does not apply"; /bin/rm -rf "$X"; exit 8; }
if [ $NATIVE -gt 0 ]; then bash $X/build.sh >$X/b.log 2>&1 || { echo BUILD FAILED; tail -5 $X/b.log; }; fi
(timeout 300 bash $X/d/demo.sh >$X/pl.log 2>&1); echo "$ID demo planted: $?"; tail -2 $X/pl.log
if [ -z "$SKIPTEST" ]; then bash $X/test.sh $X/o.json >$X/t.log 2>&1; python3 - <<P
import json
d=json.load(open('$X/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(d['passed']); print('$ID stable tests missing:',[t for t in b if t not in p])
P
fi
for p in $PROPS; do echo "-- $ID under $p"; (cd /verif; PYCOLD_REPO=$R timeout 900 /opt/pycold-venv/bin/python run.py --property $p 2>&1 | tail -3; ); done
/bin/rm -rf "$X"
