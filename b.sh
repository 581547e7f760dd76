#!/bin/bash
# dev helper: build & run checks
cd /verif/harness; CARGO_TARGET_DIR=/verif/target cargo build --offline 2>&1 | grep -E "^error" -A9 | head -${EL:-60}
[ "${PIPESTATUS[0]}" ] ; rm -f /verif/target/stamp
for p in "$@"; do VH_DIR=/verif timeout 900 ../target/debug/vharness $p 2>&1 | cut -c1-1500 | tail -25; done
