#!/bin/bash
# usage: replay.sh <replay file>     runs the recorded schedule against /repo's current tree
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
BIN=varasim MODE= MORE=()
grep -q '"property": *"P\(18\|28\)"' "$1" && BIN=varasim-sdk MODE=sdk
grep -q '"property": *"P29"' "$1" && MODE=vft MORE=(--vft "$V/target/vft.wasm")
"$V/bin/build.sh" $MODE || exit 2
exec "$V/target/$BIN" replay --wasm "$V/target/contract.wasm" --file "$1" "${MORE[@]}"
