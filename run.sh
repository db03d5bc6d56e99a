#!/bin/bash
# dev helper: run.sh CRATE_DIR
export RUSTUP_TOOLCHAIN=nightly
D=${D:-/verif/vdrivers}
T=${T:-/verif/target}
SR=$(rustc --print sysroot)
export LD_LIBRARY_PATH=$SR/lib
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Zub-checks=no"
export CARGO_TARGET_DIR=$T
export RUSTC_WORKSPACE_WRAPPER=/verif/analyzer/target/release/samplint
export CARGO_INCREMENTAL=0
rm -rf $T/debug/build/vdrv*
cd $D && cargo check --offline 2>&1 | grep -v "^warning\|^ *|\|^ *Compiling\|^[0-9 ]*|\|^ *-->\|^ *=\|^help:\|^[0-9]* [|+-]\|^$"
