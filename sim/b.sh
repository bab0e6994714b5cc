#!/bin/bash
# dev helper: b.sh edges|mem|none [profile] [extra cargo args]
cd "$(dirname "$0")"
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTC_WRAPPER=$PWD/wrap.sh SIM_SANCOV=$1
p=${2:-release}; shift; shift
cargo build --profile $p --target x86_64-unknown-linux-gnu --target-dir target/${DIR:-$SIM_SANCOV} "$@" 2>&1 | grep -E -A12 "^error|src/(main|driver|worlds|ctx|ops|cluster|gen|hooks|threads|io|entropy|mem|comp).*|Finished" | grep -vE "^(warning|  *\|)" | tail -${LINES_MAX:-60}
