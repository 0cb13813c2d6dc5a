#!/bin/bash
# mkseed.sh ID PROP "needs" "breaks"   (the change is in /repo's working tree, demo at /tmp/w/seed/main.rs, optional /tmp/w/seed/img.rs)
set -e
ID=$1; PROP=$2
D=/verif/seeded/$ID
mkdir -p $D
git -C /repo diff > $D/patch.diff
cp /tmp/w/seed/main.rs $D/main.rs
grep -q 'mod img' $D/main.rs && cp /tmp/w/seed/img.rs $D/img.rs
cat > $D/demo.sh <<'X'
#!/bin/bash
# Builds and runs main.rs against /repo in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'cd /; [ -n "$work" ] && find "$work" -delete' EXIT
mkdir -p "$work/src"
cp "$here"/*.rs "$work/src/"
cp /repo/Cargo.lock "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
ext4-view = { path = "/repo", features = ["std"] }
T
cd "$work"
for i in test_disk1 test_disk_ext2 test_disk_ext3 test_disk_4k_block_journal; do
  grep -q "$i" src/main.rs && zstd -q -d "/repo/test_data/$i.bin.zst" -o "$work/$i.bin"
done
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" RUSTUP_TOOLCHAIN=stable PATH=/root/.cargo/bin:$PATH
unset RUSTFLAGS
cargo build -q --offline 2> "$work/log" || { cat "$work/log"; exit 3; }
timeout -s KILL 60 "$work/target/debug/demo"
X
chmod +x $D/demo.sh
python3 - "$D" "$PROP" "$3" "$4" <<'X'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
X
echo "--- demo with patch"; (cd /repo; bash $D/demo.sh && echo "DEMO PASSED WITH PATCH (bad)" || echo "demo fails with patch: good")
bash /opt/vp/build.sh > /tmp/w/build.log 2>&1 || { tail -20 /tmp/w/build.log; echo BUILD FAIL; }
bash /opt/vp/test.sh /tmp/w/t.json > /tmp/w/test.log 2>&1 || true
python3 - <<'X'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/w/t.json'))
p=set(t.get('passed',t.get('pass',[])))
print("stable failing:", sorted(b-p)[:10])
X
echo "--- check"; (cd /verif; timeout 900 python3 check.py $PROP | tail -8)
git -C /repo checkout -- .
echo "--- demo clean"; (cd /repo; bash $D/demo.sh && echo "demo passes clean: good" || echo "DEMO FAILS CLEAN (bad)")
