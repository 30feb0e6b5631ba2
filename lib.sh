# sourced by check.sh, setup.sh and replay.sh: builds of the machinery against /repo's working tree
export VERIF_ROOT="$PWD" RUSTUP_TOOLCHAIN=1.95.0 CARGO_NET_OFFLINE=true RUSTFLAGS= CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p evidence
# build DIR LOG [BIN]: a debug build of one crate
build() { (cd "$1" && cargo build --offline --locked -q ${3:+--bin $3} 2>"$VERIF_ROOT/evidence/$2"); }
# logging ID: the harness with the logging features (default), without any, and with `debug` only; C28 compares them
logging() {
  local f="--offline --locked -q --no-default-features" d=harness/target
  (cd harness && cargo build $f --features std,base --target-dir target/plain 2>"$VERIF_ROOT/evidence/build.$1.plain.log") & local a=$!
  (cd harness && cargo build $f --features std,debugonly --target-dir target/debugonly 2>"$VERIF_ROOT/evidence/build.$1.debug.log") & local b=$!
  build harness "build.$1.log"; local r=$?
  wait $a && wait $b && [ $r = 0 ] || { grep -hE "^error" -A12 evidence/build."$1"*.log | head -60 >&2; echo "CHECK ERROR: the harness does not build against /repo in every configuration" >&2; exit 2; }
  export VERIF_SERVERS="debug+trace, logger installed=$PWD/$d/debug/vh serve logger;debug+trace, no logger=$PWD/$d/debug/vh serve;debug, logger installed=$PWD/$d/debugonly/debug/vh serve logger"
}
harness() {
  build harness "build.$1.log" && return 0
  grep -E "^error" -A12 "evidence/build.$1.log" | head -60 >&2
  echo "CHECK ERROR: the harness does not build against /repo" >&2
  exit 2
}
# derivegen ID BIN: the generated program (its declarations and literals depend on VERIF_SEED and VERIF_TIER)
derivegen() {
  build derivegen "build.$1.log" "$2" && return 0
  # the generated declarations are valid: when the library itself builds, code generated for them does not compile
  harness "$1"
  if grep -qE "^ *--> .*/out/g_" "evidence/build.$1.log"; then
    { echo "property $1"; echo "program $VERIF_SEED $VERIF_TIER"; echo "# the program generated from this seed does not compile:"; grep -E "^error" -A14 "evidence/build.$1.log" | head -200; } > "evidence/$1.replay0.txt"
    grep -E "^error" -A12 "evidence/build.$1.log" | head -40
    python3 tools/build_evidence.py "$1" "$VERIF_TIER" "$VERIF_SEED"
    echo "VIOLATION property=$1 replay=$VERIF_ROOT/evidence/$1.replay0.txt"
    exit 1
  fi
  grep -E "^error" -A12 "evidence/build.$1.log" | head -60 >&2
  echo "CHECK ERROR: the generated program's crate does not build" >&2
  exit 2
}
# mini ID: the library with its default features, asked by the C11 check
mini() {
  build mini "build.$1.mini.log" || { grep -E "^error" -A12 "evidence/build.$1.mini.log" | head -60 >&2; echo "CHECK ERROR: the library with default features does not build" >&2; exit 2; }
  export VERIF_MINI="$PWD/mini/target/debug/mini"
}
