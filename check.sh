#!/bin/bash
# usage: check.sh <property> [--replay workload:index]
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER
id="$1"; shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
mkdir -p evidence replays target
log="$PWD/target/build-$id.log"
if ! (cd mon && cargo build --release --offline --locked --bin "$bin") >"$log" 2>&1; then
  cat "$log"
  echo "INCONCLUSIVE property=$id the harness does not build against /repo"
  exit 2
fi
if [ "$id" = C29 ]; then
  # the same sweep in other build modes
  for profile in dev plain; do
    if ! (cd mon && cargo build --profile $profile --offline --locked --bin sweepdump) >>"$log" 2>&1; then
      cat "$log"
      echo "INCONCLUSIVE property=$id the harness does not build against /repo"
      exit 2
    fi
  done
fi
err="$PWD/target/stderr-$id.log"
"$CARGO_TARGET_DIR/release/$bin" "$@" 2>"$err"
rc=$?
cat "$err" >&2
if [ $rc -ge 128 ] && grep -q "overflowed its stack" "$err"; then
  # unbounded recursion in an operation: it did not return (the monitor's own code does not recurse)
  r="replays/$id-abort.txt"
  { echo "property $id seed ${VERIF_SEED:-1}: an operation recursed until the stack was exhausted"; cat "$err"; echo "rerun: VERIF_SEED=${VERIF_SEED:-1} ./check.sh $id"; } >"$r"
  echo "VIOLATION property=$id replay=$PWD/$r"
  exit 1
fi
exit $rc
