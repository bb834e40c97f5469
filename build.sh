#!/bin/bash
# Builds the harness, with and without the silent payments feature, against /repo's working tree.
set -u
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true
mkdir -p target
exec 9> target/.build-lock
flock 9
unset RUSTFLAGS CARGO_TARGET_DIR
build() {
    cargo build --release --offline --locked -q --target-dir "target/$1" ${2:+--features $2} &&
        cp -f "target/$1/release/psbt-pbt" "target/bin-$1.new" && mv -f "target/bin-$1.new" "target/bin-$1"
}
build nosp "" & a=$!
build sp sp & b=$!
wait $a; ra=$?
wait $b; rb=$?
[ $ra = 0 ] && [ $rb = 0 ]
