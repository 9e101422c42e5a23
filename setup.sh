#!/bin/bash
# builds the framework from the committed files
set -e
cd "$(dirname "$0")"
python3 -c 'import vf; vf.build_rsindex()'
cd harness
CARGO_TARGET_DIR=../.build/harness cargo build --release --offline
cd ..
# warms the build of the expansion; a check redoes it
python3 -c 'import vf; vf.load_unit("der")' || true
