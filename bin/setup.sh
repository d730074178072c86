#!/bin/bash
# Builds the extractor and the executable contracts, offline.
set -e
cd "$(dirname "$0")/.."
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
(cd vx && CARGO_TARGET_DIR=../target/vx cargo build --offline --quiet)
python3 - <<'P'
import sys; sys.path.insert(0, "bin")
import check
e = check.build_rt()
print("rt:", e or "built")
P
mkdir -p evidence build replays
echo setup done
