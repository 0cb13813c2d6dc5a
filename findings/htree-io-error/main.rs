mod img;
use img::*;
use ext4_view::*;
fn main() {
    let mut i = Img::new(1024, 200, false);
    // The root directory: 14 blocks by a block map, with a hash index whose
    // only leaf is block 13.
    i.inode(2, DIR, 14 * 1024, 0x1000);
    let o = i.ino(2) + 0x28;
    for b in 0..12 {
        i.p32(o + 4 * b, 40 + b as u32);
    }
    i.p32(o + 48, 90);
    i.p32(90 * 1024, 52);
    i.p32(90 * 1024 + 4, 53);
    i.dir(40, 2, &[(2, 2, b"."), (2, 2, b"..")]);
    let r = 40 * 1024;
    i.d[r + 0x1c] = 1;
    i.d[r + 0x1d] = 8;
    i.p16(r + 0x20, 123);
    i.p16(r + 0x22, 1);
    i.p32(r + 0x24, 13);
    i.dir(53, 2, &[(12, 1, b"file")]);
    i.file(12, 5, 54, 1);
    assert!(i.load().unwrap().exists("/file").unwrap());
    let (d, log) = dev(&i);
    let fs = Ext4::load(Box::new(d)).unwrap();
    log.borrow_mut().fail = Some(Box::new(|_, s, n| s <= 90 * 1024 && s + n as u64 > 90 * 1024));
    let r = fs.exists("/file");
    println!("{r:?}");
    assert!(matches!(r, Err(Ext4Error::Io(_))));
}
