#!/bin/bash
# coverage.sh [COUNT]: line coverage of /repo/engine by the recorded episodes (COUNT per family), listing what no
# recording reaches.  A development aid (which functions still need a place in the specification), not a check.
. /verif/env.sh
W=/tmp/cov; mkdir -p $W; export CARGO_TARGET_DIR=$W CARGO_INCREMENTAL=0
cd /verif/harness || exit 2
RUSTFLAGS="-Zprofile -Ccodegen-units=1 -Clink-dead-code" cargo build --offline --target x86_64-unknown-linux-gnu 2>/dev/null || exit 2
D=$W/x86_64-unknown-linux-gnu/debug
find $D/deps -name '*.gcda' -delete
for f in sp pot bidir cch cust perfect ch many knn pq cont idmap tdeval tdq repr turns io cchq speed core server tdpot plf catchup detour report; do
  timeout 300 $D/harness $f --seed 1 --count ${1:-60} --tier quick --out $W/y.json >/dev/null 2>&1
done
for c in g h; do rm -rf "/tmp/cov/$c"; mkdir -p $W/$c; ln -s /repo/engine/src $W/$c/src; done
(cd $W/g; for f in $D/deps/rust_road_router-*.gcda; do llvm-cov-18 gcov -r -p -o ${f%.gcda}.gcno $f >/dev/null 2>&1; done)
(cd $W/h; for f in $D/deps/harness-*.gcda; do llvm-cov-18 gcov -p -o ${f%.gcda}.gcno $f >/dev/null 2>&1; done)
python3 /verif/tools/coverage.py
