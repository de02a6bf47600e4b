#!/bin/bash
# check.sh ID [--replay FILE]   (VERIF_TIER, VERIF_SEED from the environment)
cd "$(dirname "$0")" || exit 2
ID=$1; shift
mkdir -p scratch
if ! bash build.sh >scratch/build-$ID.log 2>&1; then
  tail -40 scratch/build-$ID.log
  echo "HARNESS ERROR property=$ID: the build failed"
  exit 2
fi
rm -f scratch/build-$ID.log
ulimit -v 28000000
ulimit -c 0
export RUST_BACKTRACE=0
exec ./target/debug/rv run "$ID" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" --verif "$PWD" "$@"
