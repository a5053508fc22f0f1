#!/bin/bash
# builds the extractor; the checks rebuild everything that depends on /repo
cd "$(dirname "$0")" && mkdir -p .work evidence && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=.work/vx cargo build --offline --quiet --manifest-path extract/Cargo.toml
