#!/bin/bash
# plant.sh ID [--full]: confirm a seeded bug in the scratch copy /tmp/w/repo: applies, builds, passes the stable tests, demo 0 -> nonzero,
# and say which checks report it
ID=$1; S=/verif/seeded/$ID; R=/tmp/w/repo
[ -d $R ] || { mkdir -p /tmp/w; cp -a /repo $R; }
git -C $R fetch -q /repo HEAD && git -C $R checkout -q -f FETCH_HEAD && git -C $R clean -fdq
export HOME=/root RUSTUP_TOOLCHAIN=nightly-2025-12-19 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
export PROPTEST_RNG_SEED=20251219 PROPTEST_DISABLE_FAILURE_PERSISTENCE=1
cd $R
if [ "$2" != --nodemo ]; then
bash $S/demo.sh > /tmp/w/demo0.txt 2>&1; echo "demo clean rc=$? (want 0)"
fi
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > /tmp/w/test.txt 2>&1; echo "tests rc=$? $(grep -c '^test .* ok$' /tmp/w/test.txt) ok"
grep -E '^test .*FAILED|^error' /tmp/w/test.txt | head
if [ "$2" != --nodemo ]; then
bash $S/demo.sh > /tmp/w/demo1.txt 2>&1; echo "demo patched rc=$? (want !=0)"; grep -E "panicked|^error" -A2 /tmp/w/demo1.txt | head -4
fi
cd /verif; unset RUSTUP_TOOLCHAIN CARGO_PROFILE_DEV_DEBUG
SA_REPO=$R ./check all 2>&1 | grep -E "^  |VIOLATION|error" | cut -c1-220
git -C $R checkout -q -f . ; git -C $R clean -fdq
