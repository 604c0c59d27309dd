#!/bin/bash
# builds a scratch copy of the crate with demo.rs added as a test module and runs it
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
CRATE=symbolic_regression
export HOME=/root PATH="$PATH:/usr/local/bin:/root/.cargo/bin" RUSTUP_TOOLCHAIN=nightly-2025-12-19 CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
tar -C "$PWD" --exclude=./target --exclude=./.git -cf - . | tar -C "$W" -xf -
export CARGO_TARGET_DIR="$W/target"
cp "$HERE/demo.rs" "$W/$CRATE/src/zz_demo.rs"
printf '\n#[cfg(test)]\nmod zz_demo;\n' >> "$W/$CRATE/src/lib.rs"
cd "$W" || exit 3
timeout 280 cargo test -p $CRATE --lib --all-features --offline zz_demo -- --test-threads 1 > "$W/out.txt" 2>&1
rc=$?
tail -30 "$W/out.txt"
grep -q "test result: ok. [1-9]" "$W/out.txt" || { [ $rc -eq 0 ] && rc=4; }
exit $rc
