#!/bin/bash
cd /verif/analyzer && LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib cargo +nightly build --release --offline 2>&1 | grep -E "^error|Finished" -A9 | head -40
