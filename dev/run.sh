set -e
T=${1:-/tmp/w/t}
OUT=${2:-/tmp/w/mir.json}
/bin/rm -rf $T; mkdir -p $T/h; cp -r /verif/harness/. $T/h/; cp /repo/Cargo.lock $T/h/Cargo.lock
cd $T/h
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
EXTRACT_OUT=$OUT RUSTC_WORKSPACE_WRAPPER=${EXTRACT:-/tmp/w/extract} RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=on" CARGO_TARGET_DIR=$T/target CARGO_NET_OFFLINE=true cargo +nightly check --offline 2>&1 | cat
