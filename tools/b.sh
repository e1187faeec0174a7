#!/bin/bash
# Development aid: build the simulator like run.sh does.
cd /verif/sim && CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTFLAGS="--cfg sherman_sim" cargo build --offline --profile ${1:-sim} 2>&1 | grep -E "^error|-->|Finished" 
