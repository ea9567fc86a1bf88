#!/bin/bash
# Builds the simulator and, from /repo's current working tree, the contract it runs.
# Prints nothing on success; leaves target/contract.wasm and target/varasim behind.
# usage: build.sh [sdk] [vft]   (sdk: also the simulator variant that links /repo/sdk/src/wasm;
#                              vft: also the token program of /repo/extended-vft)
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
R=${REPO:-/repo}
T=$V/target
mkdir -p "$T"
exec 9>"$T/.lock"
flock 9
export CARGO_NET_OFFLINE=true CONST_RANDOM_SEED=verif CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
PATH=$PATH:/root/.cargo/bin

hash_of() { # files below the given directories, by content
  find "$@" \( -name .git -o -name target -o -name node_modules \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.idl' \) -print0 |
    sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32
}
run() { # log, command...
  local log=$1; shift
  if ! "$@" >"$log" 2>&1; then
    tail -40 "$log" >&2
    echo "build failed: $*" >&2
    exit 2
  fi
}

HC=$(hash_of "$R" "$V/contract" -path "$R/sdk" -prune -o)
if [ ! -f "$T/contract.wasm" ] || [ "$(cat "$T/contract.stamp" 2>/dev/null)" != "$HC" ]; then
  rm -f "$T/contract.stamp"
  cd "$V/contract" || exit 2
  if [ -d "$T/ct" ]; then
    # never trust time stamps of the tree under test
    for p in invariant contracts io math decimal decimal_core traceable_result invariant-under-test; do
      CARGO_TARGET_DIR=$T/ct cargo +1.81 clean --offline -q --release --target wasm32-unknown-unknown -p $p >/dev/null 2>&1
    done
  fi
  run "$T/contract.log" env CARGO_TARGET_DIR="$T/ct" RUSTFLAGS="-C link-arg=--import-memory" \
    cargo +1.81 build --locked --release --offline --target wasm32-unknown-unknown
  cp "$T/ct/wasm32-unknown-unknown/release/invariant_under_test.wasm" "$T/contract.wasm" || exit 2
  echo "$HC" >"$T/contract.stamp"
fi

HS=$(hash_of "$V/sim")
if [ ! -x "$T/varasim" ] || [ "$(cat "$T/varasim.stamp" 2>/dev/null)" != "$HS" ]; then
  rm -f "$T/varasim.stamp"
  cd "$V/sim" || exit 2
  run "$T/varasim.log" env CARGO_TARGET_DIR="$T/st" cargo +1.81 build --locked --release --offline
  cp "$T/st/release/varasim" "$T/varasim.new" && mv "$T/varasim.new" "$T/varasim" || exit 2
  echo "$HS" >"$T/varasim.stamp"
fi

if [[ " $* " == *" sdk "* ]]; then
  HK=$(hash_of "$V/sim" "$V/simsdk" "$R/sdk/src/wasm" "$R/calc")
  if [ ! -x "$T/varasim-sdk" ] || [ "$(cat "$T/varasim-sdk.stamp" 2>/dev/null)" != "$HK" ]; then
    rm -f "$T/varasim-sdk.stamp"
    cd "$V/simsdk" || exit 2
    for p in invariant-vara-wasm wasm_wrapper decimal decimal_core traceable_result varasim varasim-sdk; do
      CARGO_TARGET_DIR=$T/st cargo +1.81 clean --offline -q --release -p $p >/dev/null 2>&1
    done
    run "$T/varasim-sdk.log" env CARGO_TARGET_DIR="$T/st" cargo +1.81 build --locked --release --offline
    cp "$T/st/release/varasim-sdk" "$T/varasim-sdk.new" && mv "$T/varasim-sdk.new" "$T/varasim-sdk" || exit 2
    echo "$HK" >"$T/varasim-sdk.stamp"
  fi
fi

if [[ " $* " == *" vft "* ]]; then
  # built ahead of time with everything else, a failure is left to the check that needs it
  [[ " $* " == *" sdk "* ]] && trap 'exit 0' EXIT
  HV=$(hash_of "$R/extended-vft" "$V/vft")
  if [ ! -f "$T/vft.wasm" ] || [ "$(cat "$T/vft.stamp" 2>/dev/null)" != "$HV" ]; then
    rm -f "$T/vft.stamp"
    cd "$V/vft" || exit 2
    for p in extended-vft-under-test vft-service; do
      CARGO_TARGET_DIR=$T/ct cargo +1.81 clean --offline -q --release --target wasm32-unknown-unknown -p $p >/dev/null 2>&1
    done
    run "$T/vft.log" env CARGO_TARGET_DIR="$T/ct" RUSTFLAGS="-C link-arg=--import-memory" \
      cargo +1.81 build --locked --release --offline --target wasm32-unknown-unknown
    cp "$T/ct/wasm32-unknown-unknown/release/extended_vft_under_test.wasm" "$T/vft.wasm" || exit 2
    echo "$HV" >"$T/vft.stamp"
  fi
fi
