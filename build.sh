# Sourced by run.sh: how the fixtures and the harness are built.
T=$VERIF_DIR/target
LOG=$VERIF_DIR/target/log
mkdir -p "$T" "$LOG"

quiet() { # NAME COMMAND...: runs it, and shows its output only when it fails
  local log="$LOG/$1.log"; shift
  "$@" >"$log" 2>&1 && return 0
  echo "ERROR: $* failed:"; tail -n 60 "$log"
  return 1
}

# The template that genesis-config embeds: built from the tree, never reused when it fails to build.
fixture_sct() {
  local d=/repo/simple-coin-transfer-template n=simple_coin_transfer_template
  (cd $d && CARGO_TARGET_DIR=$T/fixtures quiet sct cargo build --release --offline --locked --target wasm32-unknown-unknown) || return 1
  cmp -s "$T/fixtures/wasm32-unknown-unknown/release/$n.wasm" "$d/$n.wasm" ||
    cp "$T/fixtures/wasm32-unknown-unknown/release/$n.wasm" "$d/$n.wasm"
}

build_plain() {
  fixture_sct || return 1
  (cd harness && RUSTFLAGS="--cfg svm_verif" CARGO_TARGET_DIR=$T/plain \
    quiet plain cargo build --release --offline --locked) || return 1
  BIN=$T/plain/release/svmcheck
}

# The same harness under AddressSanitizer.
build_asan() {
  fixture_sct || return 1
  (cd harness && RUSTFLAGS="--cfg svm_verif --cfg svm_asan -Zsanitizer=address" CARGO_TARGET_DIR=$T/asan \
    quiet asan cargo build --release --offline --locked --target x86_64-unknown-linux-gnu) || return 1
  # The heap is watched by the check itself; LeakSanitizer may not be allowed to trace.
  export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99:allow_user_segv_handler=1
  BIN=$T/asan/x86_64-unknown-linux-gnu/release/svmcheck
}

# The SDK's own harness, under AddressSanitizer.
build_sdk() {
  (cd harness-sdk && RUSTFLAGS="--cfg svm_verif -Zsanitizer=address" CARGO_TARGET_DIR=$T/sdk \
    quiet sdk cargo build --release --offline --locked --target x86_64-unknown-linux-gnu) || return 1
  # The SDK never frees by design.
  export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99
  BIN=$T/sdk/x86_64-unknown-linux-gnu/release/sdkcheck
}

# The command-line tool.
build_cli() {
  (cd /repo && RUSTFLAGS= CARGO_TARGET_DIR=$T/cli quiet cli cargo build -p svm-cli --offline --locked)
}

# The templates of C25, written with the SDK of the tree. The SDK writes their meta files beside them.
templates() {
  local n
  for n in all:All fixed:Fixed; do
    local d=$VERIF_DIR/templates/${n%:*} meta=$VERIF_DIR/templates/${n%:*}/${n#*:}-meta.json
    [ -f "$meta" ] || touch "$d/src/lib.rs"
    (cd "$d" && RUSTFLAGS= CARGO_TARGET_DIR=$T/templates quiet "template-${n%:*}" \
      cargo build --release --offline --locked --target wasm32-unknown-unknown) || {
        [ "$1" = strict ] || return 1
        # The SDK can't compile a template it must be able to compile.
        mkdir -p "$VERIF_DIR/replays"; cp "$LOG/template-${n%:*}.log" "$VERIF_DIR/replays/C25-build.txt"
        echo "VIOLATION property=C25 replay=$VERIF_DIR/replays/C25-build.txt"; exit 1; }
  done
}

prepare() {
  case "$1" in
    C13) build_asan ;;
    C24) build_sdk ;;
    C25) build_plain && templates strict ;;
    C26) build_plain && build_cli ;;
    *) build_plain ;;
  esac
}

build_all() {
  build_plain && templates && build_cli && build_sdk && build_asan
}
