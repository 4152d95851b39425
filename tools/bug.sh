#!/bin/bash
# bug.sh ID [check ...]: validate /verif/seeded/ID against the tree in /repo, in a scratch copy.
# Runs: apply, build (import), stable tests, demo on clean and on patched tree, the listed checks on the patched copy.
id=$1; shift
S=/verif/seeded/$id
W=/tmp/bug_$id
rm -rf "$W"; mkdir -p "$W"
cp -a /repo "$W/repo"
cd "$W/repo" && git checkout -q -- . && git apply "$S/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; rm -rf "$W"; exit 1; }
mkdir -p "$W/demo"; cp -r "$S"/. "$W/demo/"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
( cd /repo && timeout 300 bash "$W/demo/demo.sh" >"$W/d0" 2>&1 ); c=$?
( cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" >"$W/d1" 2>&1 ); p=$?
echo "$id: demo clean=$c patched=$p"
[ $c = 0 ] || tail -5 "$W/d0"; [ $p != 0 ] || tail -5 "$W/d1"
for chk in "$@"; do
  ( cd /verif && MC_REPO="$W/repo" VERIF_SEED=1 MC_NOEVIDENCE=1 PYTHONHASHSEED=0 timeout 900 /opt/venv/bin/python -m mc.run $chk --tier quick >"$W/c_$chk" 2>&1 ); echo "$id: $chk rc=$? $(grep -c VIOLATION "$W/c_$chk") $(grep -m1 VIOLATION "$W/c_$chk" | head -c 200)"
done
if [ -z "$NOTEST" ]; then
  cd "$W/repo"
  export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$W/repo" HOME=/root
  sed -e "s#/repo#$W/repo#g" -e "s#REPORTS=.*#REPORTS=$W/reports#" /opt/vp/test.sh > "$W/test.sh"
  bash "$W/test.sh" "$W/out.json" >"$W/tlog" 2>&1
  python3 - "$W/out.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1]))
ok=set(o.get('passed',o.get('pass',[])))
print('  tests: stable missing', sorted(b-ok)[:5], len(b&ok))
P
fi
rm -rf "$W"
