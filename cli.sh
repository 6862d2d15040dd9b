#!/bin/bash
# Builds the programs of /repo's working tree, without and with the feature gpl. Leaves /repo untouched.
# cli.sh dims <n>: with gpl, for 1 to n inlined metrics
. /opt/vp/env.sh
target=${MC_TARGET:-/verif/target}
export CARGO_TARGET_DIR=$target
cd /verif/cli || exit 1
mkdir -p "$target/cli"
if [ "$1" = dims ]; then
    for k in $(seq 1 "$2"); do
        GRAPH_DIM=$k $CARGO build --release --offline --features gpl --bin osmgraphing || exit 1
        cp -f "$target/release/osmgraphing" "$target/cli/osmgraphing-dim$k" || exit 1
    done
    exit 0
fi
$CARGO build --release --offline || exit 1
cp -f "$target/release/osmgraphing" "$target/release/multi-ch-constructor" "$target/cli/" || exit 1
$CARGO build --release --offline --features gpl --bin osmgraphing || exit 1
cp -f "$target/release/osmgraphing" "$target/cli/osmgraphing-gpl"
# faults of the file system (C25)
gcc -O1 -Wall -shared -fPIC -o "$target/cli/shim.so.$$" /verif/faults/shim.c -ldl && mv -f "$target/cli/shim.so.$$" "$target/cli/shim.so"
