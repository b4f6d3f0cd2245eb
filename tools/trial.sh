#!/bin/bash
# trial.sh DIR [check ids...]: tries a planted change (DIR/patch.diff, DIR/demo.sh) in a scratch copy of /repo
# that is mounted over /repo in a namespace of its own: build, stable tests, demo before and after, checks.
dir=$(cd "$1" && pwd); shift
ids="$*"
[ -n "$ids" ] || ids=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]+'/meta.json'))['property'])" "$dir")
s=$(mktemp -d /tmp/trial.XXXXXX)
trap 'rm -rf "$s"' EXIT
cp -a /repo "$s/repo"
mkdir "$s/demo"; cp -a "$dir"/. "$s/demo"; rm -f "$s/demo"/*.diff "$s/demo"/meta.json
export S=$s DIR=$dir IDS=$ids NOCHECK
unshare -Urm bash <<'X'
mount --bind $S/repo /repo
mkdir $S/ev; mount --bind $S/ev /verif/evidence
cd /repo
if [ -f $S/demo/demo.sh ]; then
timeout 300 bash $S/demo/demo.sh >$S/d0 2>&1; a=$?
else a=none; fi
git apply $DIR/patch.diff || { echo "PATCH FAILS"; exit 1; }
bash /opt/vp/build.sh >$S/b 2>&1; b=$?
bash /opt/vp/test.sh $S/t.json >$S/t 2>&1
t=$(python3 - <<P
import json
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
r=json.load(open('$S/t.json'))
bad=[x for x in base if x not in set(r.get('passed', r.get('pass', [])))] if isinstance(r, dict) else None
print(len(bad), bad[:3])
P
)
if [ -f $S/demo/demo.sh ]; then
timeout 300 bash $S/demo/demo.sh >$S/d1 2>&1; c=$?
else c=none; fi
echo "== $(basename $DIR): demo before=$a build=$b tests-broken=$t demo after=$c"
[ "$a" = 0 ] || tail -5 $S/d0
[ -n "$NOCHECK" ] && exit 0
cd /verif
for i in $IDS; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh $i --tier quick >$S/c 2>&1; r=$?
  echo "   $i exit=$r $(grep -c . $S/c) lines"; grep "^VIOLATION" $S/c | head -3; [ $r = 0 ] || grep "not proved\|fails\|input" $S/c | head -4 | cut -c1-300
  [ $r = 0 ] || [ $r = 1 ] || tail -5 $S/c | cut -c1-300
done
X
