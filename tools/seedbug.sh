#!/bin/bash
# seedbug.sh ID : checks /verif/seeded/ID (patch applies, builds, stable tests pass, demo 0 -> nonzero) in a scratch copy
ID=$1; D=/verif/seeded/$ID
W=/tmp/sb; mkdir -p $W
[ -d $W/repo ] || cp -a /repo $W/repo
cd $W/repo && git checkout -q -- . && git fetch -q /repo HEAD 2>/dev/null && git reset -q --hard FETCH_HEAD

bash $D/demo.sh; echo "demo clean rc=$?"
git apply $D/patch.diff || { echo APPLY-FAIL; exit 1; }
. /verif/env.sh; export CARGO_TARGET_DIR=$W/target; cd $W/repo
cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 > $W/test.log 2>&1
grep -E "^test .* FAILED|^error" $W/test.log | head; grep -c "^test .* ok" $W/test.log
unset CARGO_TARGET_DIR
bash $D/demo.sh; echo "demo bug rc=$?"
git checkout -q -- .
