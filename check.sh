#!/bin/bash
# ./check.sh <ID> [--replay FILE]: builds the harness against /repo and decides one property.
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
export CARGO_NET_OFFLINE=true
log=$(mktemp)
if ! cargo build --release --offline --locked --manifest-path "$here/harness/Cargo.toml" >"$log" 2>&1; then
  grep -A12 "^error" "$log" | head -60 >&2; rm -f "$log"
  echo "harness build failed" >&2
  exit 3
fi
# thorough: the same checks driven by libFuzzer, with coverage of the crate under test
if [ "${VERIF_TIER:-quick}" = thorough ] && [ "$1" != --replay ] && [ -z "$NCHECK_NO_FUZZ" ]; then
  if RUSTC_WRAPPER="$here/fuzz/rustc-cov.sh" \
     cargo build --release --offline --locked --manifest-path "$here/fuzz/Cargo.toml" >"$log" 2>&1; then
    export NCHECK_FUZZ_BIN="$here/fuzz/target/release/nfuzz"
  else
    echo "the coverage-guided phase is left out: its build failed" >&2
    grep -A5 "^error" "$log" | head -20 >&2
  fi
fi
rm -f "$log"
if [ -d /dev/shm ] && [ -w /dev/shm ]; then base=/dev/shm; else base=${TMPDIR:-/tmp}; fi
scratch=$(mktemp -d "$base/ncheck.XXXXXX") || exit 3
chmod 711 "$scratch" # C16 also looks at files as an unprivileged user
export NCHECK_VERIF="$here" NCHECK_SCRATCH="$scratch"
"$here/harness/target/release/ncheck" "$id" "$@"
rc=$?
rm -rf -- "$scratch"
exit $rc
