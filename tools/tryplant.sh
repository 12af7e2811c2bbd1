#!/bin/bash
# tools/tryplant.sh ID [CHECK...]: confirm a planted bug, then run checks on it.
# Works on a scratch copy mounted over /repo in a private mount namespace.
V=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; shift
D=$V/seeded/$ID
WT=/tmp/wt-$ID
MODE=${MODE:-full}
rm -rf "$WT"; cp -a /repo "$WT"
git -C "$WT" apply "$D/patch.diff" || { echo "PATCH DOES NOT APPLY"; rm -rf "$WT"; exit 1; }
ns() { unshare -Urm bash -c "mount --bind '$1' /repo; cd /repo; $2"; }
if [ "$MODE" != checks ]; then
  echo "== demo on unchanged tree"
  DD=/tmp/demo-$ID; rm -rf "$DD"; mkdir -p "$DD"; cp -a "$D"/. "$DD"; rm -f "$DD"/*.diff "$DD"/meta.json
  rm -rf "$WT-clean"; cp -a /repo "$WT-clean"
  ns "$WT-clean" "bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash $DD/demo.sh" > /tmp/demo-$ID.clean 2>&1; a=$?
  rm -rf "$WT-clean"
  ns "$WT" "bash /opt/vp/build.sh" > /tmp/build-$ID.out 2>&1; b=$?
  ns "$WT" "timeout 300 bash $DD/demo.sh" > /tmp/demo-$ID.bug 2>&1; c=$?
  echo "clean=$a build=$b bug=$c: $(tail -1 /tmp/demo-$ID.bug)"
  [ $a = 0 ] || tail -5 /tmp/demo-$ID.clean
  if [ "$MODE" != demo ]; then
    ns "$WT" "bash /opt/vp/test.sh /tmp/test-$ID.json" > /tmp/test-$ID.out 2>&1
    grep -E "passed|failed" /tmp/test-$ID.out | tail -1
    python3 - /tmp/test-$ID.json <<'P'
import json,sys
d=json.load(open(sys.argv[1]));b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=d.get('passed',d)
p=set(p if isinstance(p,list) else [k for k,v in p.items() if v in (True,'passed')])
miss=[x for x in b if x not in p]
print("stable tests not passing:",len(miss),miss[:3])
P
  fi
  rm -rf "$DD"
fi
if [ "$MODE" != demo ]; then
for c in "$@"; do
  ns "$WT" "cd $V; VERIF_SEED=1 VERIF_TIER=quick BACKY_REPLAYS=/tmp/replays /opt/venv/bin/python checks/run.py $c" > /tmp/chk-$ID-$c.out 2>&1
  echo "check $c exit $?: $(grep -E 'VIOLATION|runs,' /tmp/chk-$ID-$c.out | tr '\n' ' ' | cut -c1-300)"; grep -A0 -E '^  [a-z]' /tmp/chk-$ID-$c.out | cut -c1-300
done
fi
rm -rf "$WT"
