#!/bin/bash
# Builds the checks of /verif against /repo's working tree. Leaves /repo untouched.
. /opt/vp/env.sh
export CARGO_TARGET_DIR=${MC_TARGET:-/verif/target}
cd /verif/mc && exec $CARGO build --release --offline "$@"
