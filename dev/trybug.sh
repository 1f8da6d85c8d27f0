#!/bin/bash
# dev/trybug.sh ID [PROP...]: in a private mount namespace with a scratch copy of /repo, confirm a planted bug: demo passes without,
# suite passes and demo fails with it, and see whether the checks (its own property's, or PROP...) report it.
# TRY_SKIP_TESTS=1 leaves the suite out.  Nothing outside /tmp/w/bug is written.
ID=$1; shift
if [ -z "$TRY_INNER" ]; then
  mkdir -p /tmp/w/bug/logs /tmp/w/bug/verif
  exec 9>/tmp/w/bug/lock; flock 9
  if [ ! -d /tmp/w/bug/repo/.git ]; then cp -a /repo /tmp/w/bug/repo; fi
  git -C /tmp/w/bug/repo fetch -q /repo HEAD && git -C /tmp/w/bug/repo checkout -qf FETCH_HEAD -- . && git -C /tmp/w/bug/repo reset -q FETCH_HEAD && git -C /tmp/w/bug/repo checkout -q -- .
  rm -rf /tmp/w/bug/verif/pbt; cp -a /verif/pbt /verif/known_findings.json /verif/setup.sh /tmp/w/bug/verif/
  mkdir -p /tmp/w/bug/verif/seeded; cp -a /verif/seeded/. /tmp/w/bug/verif/seeded/
  [ -d /tmp/w/bug/verif/.build ] || cp -a /verif/.build /tmp/w/bug/verif/.build
  TRY_INNER=1 exec unshare -m bash "$0" "$ID" "$@"
fi
mount --bind /tmp/w/bug/repo /repo && mount --bind /tmp/w/bug/logs /opt/vp/logs && mount --bind /tmp/w/bug/verif /verif || exit 3
S=/verif/seeded/$ID
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
cd /repo
PY="/opt/vp/venv/bin"
mkdir -p /tmp/w/bug/demo; rm -rf /tmp/w/bug/demo/$ID; cp -a $S /tmp/w/bug/demo/$ID; rm -f /tmp/w/bug/demo/$ID/*.diff /tmp/w/bug/demo/$ID/meta.json
demo() { (cd /repo; timeout 300 bash /tmp/w/bug/demo/$ID/demo.sh >/tmp/w/bug/demo.log 2>&1; echo $?); }
if [ -z "$TRY_SKIP_CLEAN" ]; then
  (. /opt/vp/env.sh; build_ext >/tmp/w/bug/build.log 2>&1) || { echo "$ID: clean build failed"; exit 1; }
  r=$(demo); [ "$r" = 0 ] || { echo "$ID: demo fails on clean tree ($r)"; tail -5 /tmp/w/bug/demo.log; exit 1; }
fi
git apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
if [ -n "$TRY_SKIP_TESTS" ]; then
  (. /opt/vp/env.sh; build_ext >/tmp/w/bug/build.log 2>&1) || { echo "$ID: build failed"; grep -A8 '^error' /tmp/w/bug/build.log|head -30; exit 1; }
else
  bash /opt/vp/build.sh >/tmp/w/bug/build.log 2>&1 || { echo "$ID: build failed"; grep -A8 '^error' /tmp/w/bug/build.log|head -30; exit 1; }
  bash /opt/vp/test.sh /tmp/w/bug/out.json >/tmp/w/bug/test.log 2>&1
  python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/bug/out.json'))
stable=set(b['stable'])
p=set(o['passed'])
miss=sorted(stable-p)
print('$ID: suite', 'OK' if not miss else f'BROKEN {len(miss)} {miss[:5]}')
PY
fi
r=$(demo); [ "$r" != 0 ] && echo "$ID: demo fails with patch (good)" || echo "$ID: DEMO PASSES WITH PATCH"
for p in $PROPS; do
  python3 /verif/pbt/run.py $p --tier quick --seed 1 >/tmp/w/bug/check-$ID-$p.log 2>&1; rc=$?
  echo "$ID: check $p rc=$rc $(grep -c VIOLATION /tmp/w/bug/check-$ID-$p.log)  $(grep -m1 -A1 '^case' /tmp/w/bug/check-$ID-$p.log | cut -c1-300)"
done
git checkout -q -- .
