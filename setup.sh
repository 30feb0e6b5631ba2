#!/bin/bash
# Builds the machinery from the committed files (offline).
cd "$(dirname "$0")" || exit 2
. ./lib.sh
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
(logging setup) || exit 1
build derivegen build.setup.log || { cat evidence/build.setup.log >&2; exit 1; }
(mini setup) || exit 1
