#!/bin/bash
# bug.sh ID PROP [check-id...]: takes the edit in the scratch copy /tmp/bw as the planted bug ID, confirms it, runs checks against it.
# Expects /verif/seeded/ID/{demo.sh,demo_test.go} to exist already. The scratch copy is reset afterwards.
id=$1; prop=$2; shift; shift; checks="$prop $*"
S=/verif/seeded/$id
git -C /tmp/bw diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "no edit"; exit 1; }
( cd /tmp/bw; export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
go build ./... || { echo "BUILD FAILS"; exit 1; }
if [ -z "$NOTEST" ]; then
sed 's#cd /repo#cd /tmp/bw#' /opt/vp/env.sh > /tmp/bwenv.sh; sed 's#/opt/vp/env.sh#/tmp/bwenv.sh#' /opt/vp/test.sh > /tmp/bwtest.sh
bash /tmp/bwtest.sh /tmp/bwout.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/bwout.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k] if isinstance(x[k],list) else [n for n,v in x[k].items() if v in('pass','passed',True)])
    return set(x)
m=names(b)-names(o); print('tests: baseline',len(names(b)),'now',len(names(o)),'missing',sorted(m)[:5])
P
fi
) || exit 1
bash -c "cd /repo && bash $S/demo.sh" > /tmp/bwd0.log 2>&1; echo "demo unpatched: $?"
bash -c "cd /tmp/bw && bash $S/demo.sh" > /tmp/bwd1.log 2>&1; r=$?; echo "demo patched: $r"; [ $r = 0 ] || grep -m3 -E 'demo_test|panic|FAIL|DATA' /tmp/bwd1.log
for c in $checks; do VERIF_REPO=/tmp/bw timeout 900 /verif/check.sh $c quick > /tmp/bwc.log 2>&1; echo "check $c: $? $(grep -m2 -E 'VIOLATION|class' /tmp/bwc.log | tr '\n' ' ')"; done
git -C /tmp/bw checkout -q -- .
