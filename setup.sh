#!/bin/bash
# Build the MIR extractor and run it over /repo's current working tree.
# Everything is written under /verif/build (git-ignored).  usage: setup.sh [repo]
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${1:-/repo}
export HOME=${HOME:-/root}
export PATH=/opt/vp/skip-dashboard:/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly
unset RUSTFLAGS RUSTC_WRAPPER
B=$V/build; mkdir -p $B
exec 9>$B/lock; flock 9
CARGO_TARGET_DIR=$B/driver cargo build --offline --manifest-path $V/driver/Cargo.toml >$B/driver.log 2>&1 || { cat $B/driver.log; echo "SETUP-FAILED: the extractor does not build"; exit 3; }
OUT=$B/out; rm -rf $OUT; mkdir -p $OUT
export CARGO_TARGET_DIR=$B/target LD_LIBRARY_PATH=$(rustc --print sysroot)/lib
rm -rf $B/target/debug/.fingerprint/nexo-* $B/target/debug/build/nexo
export RUSTC_WORKSPACE_WRAPPER=$B/driver/debug/mirdump NEXO_MIR_OUT=$OUT
mkdir -p $REPO/dashboard/dist
(cd $REPO && cargo check --offline --locked --lib --bins) >$B/dump.log 2>&1 || { tail -40 $B/dump.log; echo "SETUP-FAILED: /repo does not compile"; exit 3; }
[ -s $OUT/nexo-lib.json ] || { tail -40 $B/dump.log; echo "SETUP-FAILED: no dump"; exit 3; }
exit 0
