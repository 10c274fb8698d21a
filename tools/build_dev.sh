#!/bin/bash
# developer helper: build IR + native into $1
D=${1:-/tmp/vpt}; cd ${VD:-/verif}/contracts && python3 gen_all.py
( cargo rustc --offline --lib --crate-type staticlib --target-dir $D/ir -- --emit=llvm-ir -C no-prepopulate-passes 2>&1 | grep -E "^error" -A6 ; L=$(ls -t $D/ir/debug/deps/vpc-*.ll | head -1); grep -v '^!' $L | sed 's/, ![a-z.A-Z]* ![0-9]*//g' > $D/s.ll ) &
cargo build --offline --profile native --bin vpnative --target-dir $D/nat 2>&1 | grep -E "^error" -A6; wait
