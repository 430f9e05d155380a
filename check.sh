#!/bin/bash
# check.sh <PROPERTY>       build the simulator from /repo's working tree, run one check
# check.sh build            only build
# check.sh replay FILE      re-run a recorded violation
# check.sh one PROP SEED | digest PROP BASE N
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true
log=/verif/target/build.log
mkdir -p /verif/target
# C22 counts executed basic blocks as its clock: same simulator, coverage callbacks compiled in
prop=$1
case "$1" in replay) prop=$(sed -n 's/^prop //p' "$2" 2>/dev/null | head -1) ;; one|digest) prop=$2 ;; esac
cov=""
if [ "$prop" = C22 ]; then
  export CARGO_TARGET_DIR=/verif/target/cov
  cov="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"
fi
build() { RUSTFLAGS="$1 $cov" cargo build --release --offline --manifest-path sim/Cargo.toml >"$log" 2>&1; }
if ! build "--cfg relib_sim -Awarnings"; then
  # the guarded seam may have been edited away: simulate without memo faults
  if ! build "-Awarnings"; then
    cat "$log" >&2
    echo "simulator does not build against /repo" >&2
    exit 2
  fi
fi
ulimit -v 8000000 2>/dev/null  # per process: a runaway run dies alone
case "$1" in
  build) exit 0 ;;  # (the C22 variant is built by its own check)
  replay|one|digest) exec "$CARGO_TARGET_DIR"/release/sim "$@" ;;
  *) exec "$CARGO_TARGET_DIR"/release/sim check "$1" ;;
esac
