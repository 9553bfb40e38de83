#!/bin/bash
# Usage: plant.sh <id>: confirms a planted bug in the scratch copy /tmp/seed of /repo: builds, passes the tests, demo 0 without and nonzero with it.
d=$(echo /verif/seeded/$1*); cd /tmp/seed || exit 9
git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
bash "$d/demo.sh" > /tmp/plants/$1.clean 2>&1; a=$?
git apply "$d/patch.diff" || exit 9
base=$(python3 -c "import json;print(json.load(open('/opt/vp/BASELINE.json')).get('commit',''))" 2>/dev/null)
cargo test --workspace --all-features --offline > /tmp/plants/$1.test 2>&1; t=$?
bash "$d/demo.sh" > /tmp/plants/$1.bug 2>&1; b=$?
git checkout -q -- .
echo "$1: clean $a, tests $t ($(grep -c '^test .* ok' /tmp/plants/$1.test) ok), with the bug $b: $(grep -m1 -A1 panicked /tmp/plants/$1.bug | tail -1 | cut -c1-150)"
[ $a = 0 ] && [ $t = 0 ] && [ $b != 0 ]
