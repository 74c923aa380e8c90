#!/bin/bash
# builds the extractor and the driver (checks rebuild them when missing or stale)
cd "$(dirname "$0")/.." || exit 1
(cd extract && RUSTFLAGS= CARGO_TARGET_DIR=$PWD/../target/extract cargo build --offline --release --quiet) || exit 1
(cd driver && RUSTFLAGS="--cfg verif_hooks --cfg verif_pats" VERIF_HOOKS_RS=$PWD/hooks.rs CARGO_TARGET_DIR=$PWD/../target/driver cargo build --offline --quiet) || true
exit 0
