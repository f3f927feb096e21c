#!/bin/bash
# Builds the part of /repo that can be built, with demo.rs appended to the file
# it concerns, and runs the demonstration in a scratch folder of its own.
# demo.conf: FILE=<source file> RANKS=<ranks of the run> TIME=<seconds allowed>
here=$(cd "$(dirname "$0")" && pwd)
. "$here/demo.conf"
. /opt/vp/env.sh
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
make_view || exit 2
cp -aL /opt/vp/view "$scratch/view" || exit 2
cp -a /opt/vp/target "$scratch/target" || exit 2
export CARGO_TARGET_DIR=$scratch/target CARGO_INCREMENTAL=0
cat "$here/demo.rs" >> "$scratch/view/$FILE" || exit 2
cd "$scratch/view" || exit 2
bin=$(cargo test --lib --no-run --offline --message-format=json 2>"$scratch/err" |
    grep -o '"executable":"[^"]*"' | tail -1 | cut -d'"' -f4)
if [ ! -x "$bin" ]; then tail -30 "$scratch/err"; exit 2; fi
if [ "${RANKS:-1}" -gt 1 ]; then
    timeout -k 5 "${TIME:-60}" mpirun --oversubscribe -n "$RANKS" "$bin" planted_demo --test-threads=1 --nocapture
else
    timeout -k 5 "${TIME:-60}" "$bin" planted_demo --test-threads=1 --nocapture
fi
