//! The part of the most general client that a `no_std` user can write: used to
//! check that the library, without its `std` feature, reaches nothing in `std`.
#![no_std]
#![allow(clippy::all)]
extern crate alloc;
use alloc::boxed::Box;
use alloc::string::String;
use alloc::vec::Vec;
use ext4_view::*;

pub fn api_load(reader: Box<dyn Ext4Read>) -> Result<Ext4, Ext4Error> {
    Ext4::load(reader)
}
pub fn api_canonicalize(fs: &Ext4, p: &[u8]) -> Result<PathBuf, Ext4Error> {
    fs.canonicalize(p)
}
pub fn api_open(fs: &Ext4, p: &[u8]) -> Result<File, Ext4Error> {
    fs.open(p)
}
pub fn api_read(fs: &Ext4, p: &[u8]) -> Result<Vec<u8>, Ext4Error> {
    fs.read(p)
}
pub fn api_read_to_string(fs: &Ext4, p: &[u8]) -> Result<String, Ext4Error> {
    fs.read_to_string(p)
}
pub fn api_read_link(fs: &Ext4, p: &[u8]) -> Result<PathBuf, Ext4Error> {
    fs.read_link(p)
}
pub fn api_read_dir(fs: &Ext4, p: &[u8]) -> Result<ReadDir, Ext4Error> {
    fs.read_dir(p)
}
pub fn api_exists(fs: &Ext4, p: &[u8]) -> Result<bool, Ext4Error> {
    fs.exists(p)
}
pub fn api_metadata(fs: &Ext4, p: &[u8]) -> Result<Metadata, Ext4Error> {
    fs.metadata(p)
}
pub fn api_symlink_metadata(fs: &Ext4, p: &[u8]) -> Result<Metadata, Ext4Error> {
    fs.symlink_metadata(p)
}
pub fn op_file_read_bytes(f: &mut File, b: &mut [u8]) -> Result<usize, Ext4Error> {
    f.read_bytes(b)
}
pub fn op_file_seek_to(f: &mut File, pos: u64) -> Result<(), Ext4Error> {
    f.seek_to(pos)
}
pub fn op_readdir_next(r: &mut ReadDir) -> Option<Result<DirEntry, Ext4Error>> {
    r.next()
}
pub fn op_direntry_metadata(e: &DirEntry) -> Result<Metadata, Ext4Error> {
    e.metadata()
}
pub fn fmt_error_display(x: &Ext4Error, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
    core::fmt::Display::fmt(x, f)
}
pub fn rd_vec(v: &mut Vec<u8>, start: u64, dst: &mut [u8]) -> bool {
    Ext4Read::read(v, start, dst).is_ok()
}
