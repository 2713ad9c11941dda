#!/bin/bash
# bash tools/try_bug.sh <bug id> [notests]: confirms a planted bug in a scratch copy and runs its property's check there.
id="${1:?}"; d="$(realpath "$(dirname "$0")/../seeded/$id")"; root="$(realpath "$(dirname "$0")/..")"
. /opt/vp/env.sh
W=$(mktemp -d /tmp/pb.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo" || exit 2
git checkout -q -- . ; git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
export TMPDIR=$W RAY_TMPDIR=$W
(cd /repo && timeout 300 bash "$d/demo.sh" >"$W/demo0.log" 2>&1); echo "$id: demo on clean tree: exit $?"
(PYTHONPATH=$W/repo/src timeout 300 bash "$d/demo.sh" >"$W/demo1.log" 2>&1); echo "$id: demo with bug: exit $?"; tail -2 "$W/demo1.log"
if [ "$2" != notests ]; then
  PYTHONPATH=$W/repo/src timeout -k 10 780 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --timeout=120 \
    --basetemp="$W/pt" -o junit_family=xunit2 --junitxml="$W/junit.xml" tests 2>&1 | tail -3
  python3 /opt/vp/results.py "$W/r.json" "junit:$W/junit.xml"
  python3 -c "
import json; b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('$W/r.json'))
lost=set(b['stable'])-set(r['passed']); print('$id: stable tests lost:', len(lost), sorted(lost)[:5])"
fi
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd "$root"; VP_SUT_SRC=$W/repo/src VP_OUT=$W timeout 900 bash run.sh "$prop" 2>&1 | grep -v '^:actor_name\|^:job_id' | tail -4 | cut -c1-600
