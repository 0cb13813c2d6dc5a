#!/bin/bash
# run /tmp/w/seed/main.rs on current /repo tree
W=/tmp/w/demo; mkdir -p $W/src; cp /tmp/w/seed/*.rs $W/src/; cp /repo/Cargo.lock $W/
cat > "$W/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
ext4-view = { path = "/repo", features = ["std"] }
T
cd $W; for i in test_disk1 test_disk_ext2 test_disk_ext3 test_disk_4k_block_journal; do grep -q $i src/main.rs && [ ! -f $i.bin ] && zstd -q -d /repo/test_data/$i.bin.zst -o $i.bin; done
CARGO_NET_OFFLINE=true cargo run -q --offline
