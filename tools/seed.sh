#!/bin/bash
# seed.sh ID : (development tool) checks /verif/seeded/ID in the scratch copy /tmp/sr and runs the property's check on /repo with the patch applied
ID=$1; D=${SEEDED:-/verif/seeded}/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
. /opt/vp/env.sh
cd /tmp/sr && git fetch -q /repo && git checkout -q -f FETCH_HEAD 
bash $D/demo.sh >/tmp/seed_$ID.clean 2>&1 && echo "demo clean ok" || { echo "DEMO FAILS ON CLEAN"; tail -5 /tmp/seed_$ID.clean; exit 1; }
git apply $D/patch.diff || exit 1
bash $D/demo.sh >/tmp/seed_$ID.bug 2>&1 && { echo "DEMO PASSES WITH BUG"; git checkout -q -f .; exit 1; } || { echo "demo bug ok"; tail -3 /tmp/seed_$ID.bug; }
(cargo test --workspace --all-features --all-targets --no-fail-fast --offline -- --test-threads 8 ; cargo test --doc --all-features --offline) > /tmp/seed_$ID.test 2>&1
grep -E "^test .* FAILED|^error" /tmp/seed_$ID.test | head -5; grep -c "^test .* ok$" /tmp/seed_$ID.test
git checkout -q -f .
[ "$2" = nocheck ] && exit 0
git -C /repo apply $D/patch.diff && (cd /verif && python3 check.py $P | tail -6; echo "exit ${PIPESTATUS[0]}"); git -C /repo checkout -q -- .
