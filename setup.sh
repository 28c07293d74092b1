#!/bin/bash
# builds the engine, the replay runtime and the dependencies of the harness
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
(cd engine && cargo build --release --offline -q 2>/dev/null)
mkdir -p build
rustc --edition 2021 --crate-type staticlib -O -o build/librt.a engine/rt/rt.rs
python3 - <<'P'
import sys; sys.path.insert(0, 'tools'); import ly
for f in ('rel', 'dev'):
    try: ly.build_ir(f, 'c01')
    except Exception as e: print('setup: prebuild failed:', e)
P
