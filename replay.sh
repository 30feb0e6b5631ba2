#!/bin/bash
# replay.sh FILE: rebuilds the program a replay file belongs to and runs its case; exit 1 when it still fails.
f="$(realpath "$1")"; cd "$(dirname "$0")" || exit 2
. ./lib.sh
id="$(sed -n 's/^property //p' "$f" | head -1)"
read -r seed tier < <(sed -n 's/^program //p' "$f" | head -1)
export VERIF_SEED="${seed:-1}" VERIF_TIER="${tier:-quick}"
case "$id" in
  C20|C21) derivegen "$id" dg; exec derivegen/target/debug/dg replay "$f";;
  C29) derivegen "$id" lit; exec derivegen/target/debug/lit replay "$f";;
  C11) mini "$id"; harness "$id"; exec harness/target/debug/vh replay "$f";;
  C28) logging "$id"; exec harness/target/plain/debug/vh replay "$f";;
  *) harness "$id"; exec harness/target/debug/vh replay "$f";;
esac
