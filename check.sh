#!/bin/bash
# check.sh <property> [quick|thorough] [--case family:index]
# exit 0: held on everything explored; 1: violated; 2: no answer (e.g. /repo does not build)
prop=$1; shift
out=${MC_OUT:-/verif/out}
mkdir -p "$out/replay"
features=
[ "$prop" = C12 ] && features="--features sched"
ok=
bash /verif/build.sh $features >"$out/build-$prop.log" 2>&1 && ok=1
if [ -z "$ok" ]; then
    # another check than this one may not compile
    features="--no-default-features --features $(echo "$prop" | tr C c)"
    [ "$prop" = C12 ] && features="--no-default-features --features sched"
    bash /verif/build.sh $features >>"$out/build-$prop.log" 2>&1 && ok=1
fi
if [ -z "$ok" ] && [ "$prop" = C12 ]; then
    # the balancer uses parts of std which have no stand-in: only the schedules of the system
    bash /verif/build.sh --no-default-features --features plain >>"$out/build-$prop.log" 2>&1 && ok=1
fi
if [ -z "$ok" ]; then
    tail -30 "$out/build-$prop.log" >&2
    echo "build failed, see $out/build-$prop.log" >&2
    exit 2
fi
case $prop in
C20 | C21 | C22 | C23 | C25)
    if ! bash /verif/cli.sh >"$out/build-$prop-cli.log" 2>&1; then
        tail -30 "$out/build-$prop-cli.log" >&2
        echo "build failed, see $out/build-$prop-cli.log" >&2
        exit 2
    fi
    export MC_CLI=${MC_TARGET:-/verif/target}/cli
    ;;
C24)
    if ! bash /verif/cli.sh dims 6 >"$out/build-$prop-cli.log" 2>&1; then
        tail -30 "$out/build-$prop-cli.log" >&2
        echo "build failed, see $out/build-$prop-cli.log" >&2
        exit 2
    fi
    export MC_CLI=${MC_TARGET:-/verif/target}/cli
    ;;
esac
bin=${MC_TARGET:-/verif/target}/release/mc
export RUST_BACKTRACE=0
if [ -z "$MC_SCRATCH" ]; then
    MC_SCRATCH=$(mktemp -d /dev/shm/mc-$prop-XXXXXX 2>/dev/null || mktemp -d /tmp/mc-$prop-XXXXXX)
fi
export MC_SCRATCH
trap 'rm -rf "$MC_SCRATCH"' EXIT
if [ "$prop" = C22 ]; then
    # the visualizer is a python-program, the stand-ins for external tools are in $bin
    MC_BIN=$bin /opt/veriftools/pyvenv/bin/python3 -B /verif/viz/check.py "$@"
else
    "$bin" "$prop" "$@"
fi
rc=$?
case $rc in
0 | 1) exit $rc ;;
134 | 136 | 139)
    # the code under test took the process down
    f="$out/replay/$prop-crash.txt"
    echo "property: $prop; the process ended with status $rc; replay: bash /verif/check.sh $prop $*" >"$f"
    echo "VIOLATION property=$prop replay=$f"
    exit 1
    ;;
*) exit 2 ;;
esac
