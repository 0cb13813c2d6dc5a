cd /verif/analyzer && rustc +nightly -C opt-level=3 -C codegen-units=8 -A warnings --edition 2024 main.rs -o /tmp/w/an 2>&1 | grep -E "^error" -A9 | head -${1:-120}
