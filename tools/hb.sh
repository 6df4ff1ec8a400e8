#!/bin/bash
# developer helper: build the debug-profile harness with all features
cd /verif/harness && CARGO_TARGET_DIR=/verif/build/t_dev cargo build --offline --features "${1:-full}" 2>&1 | grep -E "^(error|warning: unus)|-->|Finished" | grep -v /repo
