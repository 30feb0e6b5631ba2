#!/bin/bash
# check.sh ID [quick|thorough]: builds the machinery against /repo's working tree and runs one property check.
cd "$(dirname "$0")" || exit 2
. ./lib.sh
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
case "$id" in
  C20|C21) derivegen "$id" dg; exec derivegen/target/debug/dg check "$id" "$tier";;
  C29) derivegen "$id" lit; exec derivegen/target/debug/lit check "$id" "$tier";;
  C11) mini "$id"; harness "$id"; exec harness/target/debug/vh check "$id" "$tier";;
  C28) logging "$id"; exec harness/target/plain/debug/vh check "$id" "$tier";;
  *) harness "$id"; exec harness/target/debug/vh check "$id" "$tier";;
esac
