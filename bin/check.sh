#!/bin/bash
# usage: check.sh <property> <quick|thorough>
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
P=$1 TIER=${2:-${VERIF_TIER:-quick}} SEED=${VERIF_SEED:-1}
BIN=varasim MODE= MORE=()
[ "$P" = P18 -o "$P" = P28 ] && BIN=varasim-sdk MODE=sdk
[ "$P" = P29 ] && MODE=vft MORE=(--vft "$V/target/vft.wasm")
"$V/bin/build.sh" $MODE || exit 2
mkdir -p "$V/evidence" "$V/replays"
exec "$V/target/$BIN" check --wasm "$V/target/contract.wasm" --prop "$P" --tier "$TIER" --seed "$SEED" \
  --evidence "$V/evidence/$P.json" --replays "$V/replays" --known "$V/known-findings.txt" "${MORE[@]}"
