#!/bin/bash
# tools/try_seed.sh ID [notest]: apply a planted bug to a scratch copy of /repo, run its demonstration with
# and without it, the test suite, and the check of its property.
id=$1; d=/verif/seeded/$id
w=$(mktemp -d /tmp/try-seed-XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"
demo=$(mktemp -d "$w/demo-XXXX"); cp -a "$d"/. "$demo"/; rm -f "$demo"/*.diff "$demo"/meta.json
cd "$w/repo" || exit 2
git status --short | head -3
sed 's#/repo#'"$w/repo"'#g' /opt/vp/build.sh > "$w/build.sh"
(timeout 300 bash "$demo/demo.sh") > "$w/demo0.log" 2>&1; echo "demo on unchanged tree: $?"
git apply "$d/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 2; }
(timeout 300 bash "$demo/demo.sh") > "$w/demo1.log" 2>&1; rc=$?; echo "demo with the change: $rc"; tail -2 "$w/demo1.log" | cut -c1-300
prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('$d/meta.json'))['property'])")
echo "check $prop:"; (cd /verif && DST_REPO=$w/repo DST_REPLAYS=$w/replays DST_SHRINK=0 timeout 900 python3 check.py ${3:-$prop}) 2>&1 | grep "^VIOL\|^dst: \[\|^dst: [0-9]* runs\|Error" | cut -c1-250
if [ "$2" != notest ]; then
  PATH=/opt/venv/bin:$PATH PYTHONPATH=$w/repo/src PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 timeout 900 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 tests \
    --ignore=tests/t4_fuse.py --ignore=tests/t5_cache.py --ignore=tests/t5_cp.py --ignore=tests/t5_ctrl.py --ignore=tests/t5_failsafe.py \
    --ignore=tests/t5_full.py --ignore=tests/t5_lock_rm.py --ignore=tests/t6_upgrade.py 2>&1 | tail -4 | cut -c1-300
fi
