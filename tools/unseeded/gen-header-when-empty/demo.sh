#!/bin/bash
# Exit 0: the guarantee holds. Generates a client for doc.json with /repo's
# generator (its dependencies that are not installed replaced by stand-ins) and runs main.rs with it.
D=$(cd "$(dirname "$0")" && pwd)
S=/tmp/progenitor-gen-demo-scratch
rm -rf /tmp/progenitor-gen-demo-scratch
mkdir -p $S
cp -r "$D/kit/." $S/
cp "$D/main.rs" $S/client/src/main.rs
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$S/target RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
(cd $S/generator && cargo build -q --offline) || { rm -rf /tmp/progenitor-gen-demo-scratch; exit 3; }
rc=0
$S/target/debug/generate $S/d.json positional  > $S/client/src/c.gen.rs || rc=4
if [ $rc = 0 ]; then (cd $S/client && cargo run -q --offline); rc=$?; fi
rm -rf /tmp/progenitor-gen-demo-scratch
exit $rc
