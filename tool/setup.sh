#!/bin/bash
# Warm the build directories; every check also works without it.
cd "$(dirname "$0")/.." && mkdir -p work evidence
(cd /repo && cargo +nightly rustc --lib --offline --locked --target-dir /verif/work/thir-target -- -Zunpretty=thir-tree >/dev/null 2>/verif/work/setup.log) || { tail -5 work/setup.log; exit 1; }
(cd harness && CARGO_TARGET_DIR=/verif/work/harness-target RUSTFLAGS="--cfg verif_hooks" cargo build --offline --locked >>../work/setup.log 2>&1 && CARGO_TARGET_DIR=/verif/work/harness-target RUSTFLAGS="--cfg verif_hooks" cargo build --release --offline --locked >>../work/setup.log 2>&1) || { tail -5 work/setup.log; exit 1; }
verus --version >/dev/null
