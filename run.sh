#!/bin/bash
SR=$(rustc +nightly --print sysroot); export LD_LIBRARY_PATH=$SR/lib CARGO_INCREMENTAL=0
cd /verif; rustc +nightly -O --edition 2021 driver/main.rs -o build/knxv-driver 2>&1 | grep -E "^error" -A14 | head -80
rm -rf /verif/build/target/debug/.fingerprint/knx-ip-client-* /verif/build/target/debug/build/knx-ip-client /verif/build/dump.json
KNXV_OUT=/verif/build/dump.json RUSTC_WORKSPACE_WRAPPER=/verif/build/knxv-driver cargo +nightly check --offline --lib --manifest-path /repo/Cargo.toml --target-dir /verif/build/target 2>&1 | grep -v warning | grep -A20 -E "error|panicked" | cut -c1-600
ls -la build
