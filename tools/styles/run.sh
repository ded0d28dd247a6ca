#!/bin/bash
# development only: style battery
D=$(cd "$(dirname "$0")" && pwd); SR=$(rustc +nightly --print sysroot); mkdir -p /tmp/stout
cd $D; touch src/lib.rs
env LD_LIBRARY_PATH=$SR/lib CARGO_INCREMENTAL=0 RUSTC_WRAPPER=${SDRIVER:-/tmp/db/release/sdriver} VP_OUT=/tmp/stout VP_DENY=/verif/harness/deny.txt VP_MODELS=/verif/harness/models.map CARGO_TARGET_DIR=/tmp/stb RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints warn" cargo +nightly check --offline 2>&1 | grep -E "^error|model|-->" -A5 | tail -40
cd /verif/sa; python3 sty.py "$@"
