#!/bin/bash
# tryseed.sh ID [WORKERS] - development aid: confirms one planted bug of seeded/ID in scratch copies
# (applies, builds, passes the stable tests, demo passes without and fails with it) and
# says whether the quick check of its property reports it.  Checks never use this.
ID=$1; W=${2:-8}; V="$(cd "$(dirname "$0")/.." && pwd)"; S=$V/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
T=/tmp/ts-$ID; rm -rf "$T"; mkdir -p $T/verif; 
git -C /repo archive --prefix=repo/ HEAD | tar -x -C $T; (cd $T/repo && git init -q . )
cp -r $V/{build.sh,check.sh,sim,wl,tools,known_findings.jsonl,properties.jsonl,MANIFEST.json} $T/verif/
sed "s#/repo#$T/repo#g" /opt/vp/build.sh > $T/b.sh; sed "s#/repo#$T/repo#g;s#/opt/vp/build.sh#$T/b.sh#" /opt/vp/test.sh > $T/t.sh
(cd $T/repo && timeout 300 bash $S/demo.sh > $T/demo0.log 2>&1); d0=$?
if ! (cd $T/repo && git apply $S/patch.diff); then echo "$ID: patch does not apply"; exit 1; fi
[ -n "$NOTEST" ] || bash $T/t.sh $T/out.json > $T/test.log 2>&1
t=$(python3 -c "
import json,os
if os.environ.get('NOTEST'): print('skipped')
else:
  o=json.load(open('$T/out.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=set(o['passed']);m=[x for x in b if x not in p];print('ok' if not m else 'FAILED '+','.join(m))" 2>&1 | tail -1)
(cd $T/repo && timeout 300 bash $S/demo.sh > $T/demo1.log 2>&1); d1=$?
c=-
if [ -z "$NOCHECK" ]; then (cd $T/verif && REPO=$T/repo VERIF_SEED=1 WORKERS=$W timeout 900 ./check.sh $P ${TIER:-quick} > $T/check.log 2>&1); c=$?; fi
v=$(grep -m1 "VIOLATION" $T/check.log 2>/dev/null)
echo "$ID prop=$P tests=$t demo0=$d0 demo1=$d1 check=$c $v"
[ -n "$v" ] && grep -v "^VIOLATION" $T/check.log | grep -i -m3 "violat\|reason\|what" | cut -c1-300
[ -n "$KEEP" ] || rm -rf "$T"
