//! Builds small filesystem images in memory.
#![allow(dead_code)]
use ext4_view::{Ext4, Ext4Error, Ext4Read};
use std::cell::RefCell;
use std::error::Error;
use std::rc::Rc;

pub const DIR: u16 = 0o040755;
pub const REG: u16 = 0o100644;
pub const LNK: u16 = 0o120777;
pub const EXTENTS: u32 = 0x80000;

pub struct Img {
    pub d: Vec<u8>,
    pub bs: usize,
    pub csum: bool,
    pub table: usize,
}
pub fn crc(mut c: u32, b: &[u8]) -> u32 {
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 };
        }
    }
    c
}
impl Img {
    /// One block group; inodes 1 to 64 of 256 bytes; data from block 40 on.
    pub fn new(bs: usize, blocks: u32, csum: bool) -> Img {
        let mut i = Img { d: vec![0; bs * blocks as usize], bs, csum, table: 6 };
        let s = 1024;
        i.p32(s, 64);
        i.p32(s + 4, blocks);
        i.p32(s + 0x14, (bs == 1024) as u32);
        i.p32(s + 0x18, (bs as u32 / 1024).trailing_zeros());
        i.p32(s + 0x20, bs as u32 * 8);
        i.p32(s + 0x28, 64);
        i.p16(s + 0x38, 0xef53);
        i.p32(s + 0x4c, 1);
        i.p32(s + 0x54, 11);
        i.p16(s + 0x58, 256);
        i.p32(s + 0x60, 0x2 | 0x40);
        i.p32(s + 0x64, if csum { 0x400 } else { 0 });
        i.d[s + 0x68..s + 0x78].copy_from_slice(b"0123456789abcdef");
        i.d[s + 0x175] = 1;
        let g = i.gdt();
        let t = i.table as u32;
        i.p32(g + 8, t);
        i.inode(2, DIR, bs as u64, EXTENTS);
        i.extents(2, &[(0, 1, 40)]);
        i.dir(40, 2, &[(2, 2, b"."), (2, 2, b"..")]);
        i
    }
    pub fn gdt(&self) -> usize {
        if self.bs == 1024 { 2048 } else { self.bs }
    }
    pub fn p16(&mut self, o: usize, v: u16) {
        self.d[o..o + 2].copy_from_slice(&v.to_le_bytes());
    }
    pub fn p32(&mut self, o: usize, v: u32) {
        self.d[o..o + 4].copy_from_slice(&v.to_le_bytes());
    }
    pub fn ino(&self, n: usize) -> usize {
        self.table * self.bs + (n - 1) * 256
    }
    pub fn inode(&mut self, n: usize, mode: u16, size: u64, flags: u32) {
        let o = self.ino(n);
        self.p16(o, mode);
        self.p32(o + 4, size as u32);
        self.p32(o + 0x6c, (size >> 32) as u32);
        self.p16(o + 0x1a, 1);
        self.p32(o + 0x20, flags);
        self.p16(o + 0x80, 32);
    }
    /// Extents (logical, length, physical) in the inode.
    pub fn extents(&mut self, n: usize, e: &[(u32, u16, u64)]) {
        let o = self.ino(n) + 0x28;
        self.extent_node(o, 4, 0, e);
    }
    pub fn extent_node(&mut self, o: usize, max: u16, depth: u16, e: &[(u32, u16, u64)]) {
        self.p16(o, 0xf30a);
        self.p16(o + 2, e.len() as u16);
        self.p16(o + 4, max);
        self.p16(o + 6, depth);
        for (i, x) in e.iter().enumerate() {
            let q = o + 12 + i * 12;
            self.p32(q, x.0);
            if depth == 0 {
                self.p16(q + 4, x.1);
                self.p16(q + 6, (x.2 >> 32) as u16);
                self.p32(q + 8, x.2 as u32);
            } else {
                self.p32(q + 4, x.2 as u32);
                self.p16(q + 8, (x.2 >> 32) as u16);
            }
        }
    }
    /// A directory block with entries (inode, type, name).
    pub fn dir(&mut self, block: usize, _dir_ino: u32, e: &[(u32, u8, &[u8])]) {
        let mut o = block * self.bs;
        let end = o + self.bs - if self.csum { 12 } else { 0 };
        for (i, x) in e.iter().enumerate() {
            let mut len = (8 + x.2.len() + 3) & !3;
            if i + 1 == e.len() {
                len = end - o;
            }
            self.p32(o, x.0);
            self.p16(o + 4, len as u16);
            self.d[o + 6] = x.2.len() as u8;
            self.d[o + 7] = x.1;
            self.d[o + 8..o + 8 + x.2.len()].copy_from_slice(x.2);
            o += len;
        }
        if self.csum {
            self.p16(end + 4, 12);
            self.d[end + 7] = 0xde;
        }
    }
    pub fn symlink(&mut self, n: usize, target: &[u8]) {
        self.inode(n, LNK, target.len() as u64, 0);
        let o = self.ino(n) + 0x28;
        self.d[o..o + target.len()].copy_from_slice(target);
    }
    /// A regular file in `len` blocks from `block` on.
    pub fn file(&mut self, n: usize, size: u64, block: u64, len: u16) {
        self.inode(n, REG, size, EXTENTS);
        self.extents(n, &[(0, len, block)]);
    }
    pub fn seed(&self) -> u32 {
        crc(!0, &self.d[1024 + 0x68..1024 + 0x78])
    }
    pub fn inode_seed(&self, n: usize) -> u32 {
        let o = self.ino(n);
        crc(crc(self.seed(), &(n as u32).to_le_bytes()), &self.d[o + 0x64..o + 0x68])
    }
    pub fn sum_inode(&mut self, n: usize) {
        let o = self.ino(n);
        self.p16(o + 0x7c, 0);
        self.p16(o + 0x82, 0);
        let c = crc(self.inode_seed(n), &self.d[o..o + 256]);
        self.p16(o + 0x7c, c as u16);
        self.p16(o + 0x82, (c >> 16) as u16);
    }
    pub fn sum_dir(&mut self, n: usize, block: usize) {
        let o = block * self.bs;
        let c = crc(self.inode_seed(n), &self.d[o..o + self.bs - 12]);
        let e = o + self.bs - 4;
        self.p32(e, c);
    }
    pub fn sum_extents(&mut self, n: usize, block: usize) {
        let o = block * self.bs;
        let max = u16::from_le_bytes([self.d[o + 4], self.d[o + 5]]) as usize;
        let t = o + 12 + 12 * max;
        let c = crc(self.inode_seed(n), &self.d[o..t]);
        self.p32(t, c);
    }
    /// Checksums of the superblock, the group and all inodes in use.
    pub fn sums(&mut self) {
        if !self.csum {
            return;
        }
        for n in 1..=64 {
            let o = self.ino(n);
            if self.d[o] != 0 || self.d[o + 1] != 0 {
                self.sum_inode(n);
            }
        }
        let g = self.gdt();
        self.p16(g + 0x1e, 0);
        let c = crc(crc(self.seed(), &0u32.to_le_bytes()), &self.d[g..g + 32]);
        self.p16(g + 0x1e, c as u16);
        let c = crc(!0, &self.d[1024..1024 + 0x3fc]);
        self.p32(1024 + 0x3fc, c);
    }
    pub fn load(&self) -> Result<Ext4, Ext4Error> {
        Ext4::load(Box::new(self.d.clone()))
    }
}
/// A device whose reads are recorded and can be made to fail.
#[derive(Default)]
pub struct Log {
    pub reads: Vec<(u64, usize)>,
    pub fail: Option<Box<dyn FnMut(usize, u64, usize) -> bool>>,
}
pub struct Dev {
    pub d: Vec<u8>,
    pub log: Rc<RefCell<Log>>,
}
#[derive(Debug)]
pub struct Broken;
impl std::fmt::Display for Broken {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("broken")
    }
}
impl Error for Broken {}
impl Ext4Read for Dev {
    fn read(&mut self, start: u64, dst: &mut [u8]) -> Result<(), Box<dyn Error + Send + Sync + 'static>> {
        let mut l = self.log.borrow_mut();
        let n = l.reads.len();
        l.reads.push((start, dst.len()));
        if let Some(f) = &mut l.fail {
            if f(n, start, dst.len()) {
                return Err(Box::new(Broken));
            }
        }
        let s = start as usize;
        match self.d.get(s..s + dst.len()) {
            Some(x) => dst.copy_from_slice(x),
            None => return Err("read past the end of the device".into()),
        }
        Ok(())
    }
}
pub fn dev(i: &Img) -> (Dev, Rc<RefCell<Log>>) {
    let log = Rc::new(RefCell::new(Log::default()));
    (Dev { d: i.d.clone(), log: log.clone() }, log)
}
