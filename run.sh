#!/bin/bash
# run.sh run ID | replay ID TIER SEED CASE | build
# Rebuilds the wasm fixtures and the harness from /repo's working tree, then runs one check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
SEED=${VERIF_SEED:-1} TIER=${VERIF_TIER:-quick}
. /opt/vp/svm-env.sh
export VERIF_SEED=$SEED VERIF_TIER=$TIER
. ./build.sh
case "${1:-}" in
  build) build_all; exit $? ;;
  run) prepare "$2" || exit 2; exec "$BIN" run "$2" ;;
  replay) prepare "$2" || exit 2; exec "$BIN" replay "${@:2}" ;;
  *) echo "usage: run.sh run ID"; exit 2 ;;
esac
