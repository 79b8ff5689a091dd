#!/bin/bash
# builds the extractor and the bounded stand-in (every check rebuilds what it needs anyway)
. /opt/vp/env.sh
cd "$(dirname "$0")/.." || exit 1
(cd extract && CARGO_TARGET_DIR=$PWD/target cargo build --offline -q) || exit 1
(cd harness && CARGO_TARGET_DIR=$PWD/target cargo build --offline -q) || exit 1
(cd harness && CARGO_TARGET_DIR=$PWD/target-wb cargo build --offline -q --features wb) || exit 1
