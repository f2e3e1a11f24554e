#!/bin/bash
# usage: build.sh OUT  -- builds the MIR dumping driver with the installed nightly
set -e
cd "$(dirname "$0")"
SR=$(rustc +nightly --print sysroot)
rustc +nightly --edition 2021 -O --cap-lints allow main.rs -C "link-arg=-Wl,-rpath,$SR/lib" -o "$1"
