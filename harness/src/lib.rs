//! The most general client of ext4-view: every `pub fn` here is a root of the
//! analysis. Nothing in this crate is ever run; it only fixes which public
//! operations are analysed, with which argument types, in which order they can
//! be called on one object (any order, any number of times), and makes the
//! compiler produce their monomorphic MIR.
#![allow(clippy::all)]
use ext4_view::*;

/// Unknown inputs: the analyser models every call on this trait as returning
/// an arbitrary value of its type.
pub trait Nondet {
    fn cond(&mut self) -> bool;
    fn num(&mut self) -> u64;
    fn inum(&mut self) -> i64;
    fn byte(&mut self) -> u8;
    fn len(&mut self) -> usize;
    /// A buffer of arbitrary length and content.
    fn buf(&mut self) -> Vec<u8>;
    fn text(&mut self) -> String;
    fn seek_from(&mut self) -> std::io::SeekFrom;
    fn arr16(&mut self) -> [u8; 16];
    fn reader(&mut self) -> Box<dyn Ext4Read>;
    fn ospath(&mut self) -> std::path::PathBuf;
}

// ---- loading -------------------------------------------------------------

pub fn api_load(reader: Box<dyn Ext4Read>) -> Result<Ext4, Ext4Error> {
    Ext4::load(reader)
}
pub fn api_load_from_path(p: std::path::PathBuf) -> Result<Ext4, Ext4Error> {
    Ext4::load_from_path(p)
}

// ---- accessors -----------------------------------------------------------

pub fn api_label(fs: &Ext4) -> Label {
    *fs.label()
}
pub fn api_uuid(fs: &Ext4) -> Uuid {
    fs.uuid()
}
pub fn api_clone(fs: &Ext4) -> Ext4 {
    fs.clone()
}

// ---- path operations -----------------------------------------------------

pub fn api_canonicalize(fs: &Ext4, p: &[u8]) -> Result<PathBuf, Ext4Error> {
    fs.canonicalize(p)
}
pub fn api_open(fs: &Ext4, p: &[u8]) -> Result<File, Ext4Error> {
    fs.open(p)
}
pub fn api_read(fs: &Ext4, p: &[u8]) -> Result<Vec<u8>, Ext4Error> {
    fs.read(p)
}
pub fn api_read_to_string(fs: &Ext4, p: &[u8]) -> Result<String, Ext4Error> {
    fs.read_to_string(p)
}
pub fn api_read_link(fs: &Ext4, p: &[u8]) -> Result<PathBuf, Ext4Error> {
    fs.read_link(p)
}
pub fn api_read_dir(fs: &Ext4, p: &[u8]) -> Result<ReadDir, Ext4Error> {
    fs.read_dir(p)
}
pub fn api_exists(fs: &Ext4, p: &[u8]) -> Result<bool, Ext4Error> {
    fs.exists(p)
}
pub fn api_metadata(fs: &Ext4, p: &[u8]) -> Result<Metadata, Ext4Error> {
    fs.metadata(p)
}
pub fn api_symlink_metadata(fs: &Ext4, p: &[u8]) -> Result<Metadata, Ext4Error> {
    fs.symlink_metadata(p)
}

// The same operations with the other argument types (conversion code differs).
pub fn alt_exists_str(fs: &Ext4, p: &str) -> Result<bool, Ext4Error> {
    fs.exists(p)
}
pub fn alt_exists_string(fs: &Ext4, p: &String) -> Result<bool, Ext4Error> {
    fs.exists(p)
}
pub fn alt_exists_path(fs: &Ext4, p: Path<'_>) -> Result<bool, Ext4Error> {
    fs.exists(p)
}
pub fn alt_exists_pathbuf(fs: &Ext4, p: &PathBuf) -> Result<bool, Ext4Error> {
    fs.exists(p)
}
pub fn alt_exists_ospath(fs: &Ext4, p: &std::path::Path) -> Result<bool, Ext4Error> {
    fs.exists(p)
}
pub fn alt_exists_osstr(fs: &Ext4, p: &std::ffi::OsStr) -> Result<bool, Ext4Error> {
    fs.exists(p)
}
pub fn alt_exists_arr(fs: &Ext4, p: &[u8; 16]) -> Result<bool, Ext4Error> {
    fs.exists(p)
}
pub fn alt_open_str(fs: &Ext4, p: &str) -> Result<File, Ext4Error> {
    fs.open(p)
}
pub fn alt_read_str(fs: &Ext4, p: &str) -> Result<Vec<u8>, Ext4Error> {
    fs.read(p)
}
pub fn alt_read_to_string_str(fs: &Ext4, p: &str) -> Result<String, Ext4Error> {
    fs.read_to_string(p)
}
pub fn alt_read_link_str(fs: &Ext4, p: &str) -> Result<PathBuf, Ext4Error> {
    fs.read_link(p)
}
pub fn alt_read_dir_str(fs: &Ext4, p: &str) -> Result<ReadDir, Ext4Error> {
    fs.read_dir(p)
}
pub fn alt_metadata_str(fs: &Ext4, p: &str) -> Result<Metadata, Ext4Error> {
    fs.metadata(p)
}
pub fn alt_symlink_metadata_str(fs: &Ext4, p: &str) -> Result<Metadata, Ext4Error> {
    fs.symlink_metadata(p)
}
pub fn alt_canonicalize_str(fs: &Ext4, p: &str) -> Result<PathBuf, Ext4Error> {
    fs.canonicalize(p)
}

// ---- open files: any sequence of operations ------------------------------

pub fn op_file_read_bytes(f: &mut File, b: &mut [u8]) -> Result<usize, Ext4Error> {
    f.read_bytes(b)
}
pub fn op_file_seek_to(f: &mut File, pos: u64) -> Result<(), Ext4Error> {
    f.seek_to(pos)
}
pub fn op_file_position(f: &File) -> u64 {
    f.position()
}
pub fn op_file_metadata(f: &File) -> Metadata {
    f.metadata().clone()
}
pub fn op_file_io_read(f: &mut File, b: &mut [u8]) -> std::io::Result<usize> {
    std::io::Read::read(f, b)
}
pub fn op_file_io_seek(f: &mut File, s: std::io::SeekFrom) -> std::io::Result<u64> {
    std::io::Seek::seek(f, s)
}

// What one operation does to the position.

pub fn pr_read(f: &mut File, b: &mut [u8]) -> (u64, u64, Result<usize, Ext4Error>, u64) {
    let before = f.position();
    let size = f.metadata().len();
    let r = f.read_bytes(b);
    (before, size, r, f.position())
}
pub fn pr_seek(f: &mut File, pos: u64) -> (u64, u64, Result<(), Ext4Error>, u64) {
    let before = f.position();
    let size = f.metadata().len();
    let r = f.seek_to(pos);
    (before, size, r, f.position())
}
pub fn pr_seek_start(f: &mut File, n: u64) -> (u64, u64, std::io::Result<u64>, u64) {
    let before = f.position();
    let size = f.metadata().len();
    let r = std::io::Seek::seek(f, std::io::SeekFrom::Start(n));
    (before, size, r, f.position())
}
pub fn pr_seek_end(f: &mut File, n: i64) -> (u64, u64, std::io::Result<u64>, u64) {
    let before = f.position();
    let size = f.metadata().len();
    let r = std::io::Seek::seek(f, std::io::SeekFrom::End(n));
    (before, size, r, f.position())
}
pub fn pr_seek_current(f: &mut File, n: i64) -> (u64, u64, std::io::Result<u64>, u64) {
    let before = f.position();
    let size = f.metadata().len();
    let r = std::io::Seek::seek(f, std::io::SeekFrom::Current(n));
    (before, size, r, f.position())
}

pub fn mgc_file(mut f: File, nd: &mut dyn Nondet) {
    loop {
        if nd.cond() {
            let mut b = nd.buf();
            let _ = op_file_read_bytes(&mut f, &mut b);
        } else if nd.cond() {
            let pos = nd.num();
            let _ = op_file_seek_to(&mut f, pos);
        } else if nd.cond() {
            let mut b = nd.buf();
            let _ = op_file_io_read(&mut f, &mut b);
        } else if nd.cond() {
            let s = nd.seek_from();
            let _ = op_file_io_seek(&mut f, s);
        } else {
            let _ = op_file_position(&f);
            let _ = op_file_metadata(&f);
        }
    }
}

// ---- directory iteration -------------------------------------------------

pub fn op_readdir_next(r: &mut ReadDir) -> Option<Result<DirEntry, Ext4Error>> {
    r.next()
}
/// Whether anything but the end comes after an error or the end.
pub fn pr_readdir_done(r: &mut ReadDir) -> (bool, bool) {
    match r.next() {
        Some(Ok(_)) => (false, false),
        Some(Err(_)) | None => {
            let s = r.next().is_some();
            let t = r.next().is_some();
            (s, t)
        }
    }
}
pub fn op_direntry_path(e: &DirEntry) -> PathBuf {
    e.path()
}
pub fn op_direntry_file_name_len(e: &DirEntry) -> usize {
    e.file_name().as_ref().len()
}
pub fn op_direntry_file_type(e: &DirEntry) -> Result<FileType, Ext4Error> {
    e.file_type()
}
pub fn op_direntry_metadata(e: &DirEntry) -> Result<Metadata, Ext4Error> {
    e.metadata()
}

pub fn mgc_readdir(mut r: ReadDir) {
    loop {
        match op_readdir_next(&mut r) {
            Some(Ok(e)) => {
                let _ = op_direntry_path(&e);
                let _ = op_direntry_file_name_len(&e);
                let _ = op_direntry_file_type(&e);
                let _ = op_direntry_metadata(&e);
            }
            Some(Err(_)) => {}
            None => {}
        }
    }
}

// ---- value types ---------------------------------------------------------

pub fn val_path_try_from_bytes(b: &[u8]) -> Result<Path<'_>, PathError> {
    Path::try_from(b)
}
pub fn val_path_try_from_str(b: &str) -> Result<Path<'_>, PathError> {
    Path::try_from(b)
}
pub fn val_path_try_from_osstr(b: &std::ffi::OsStr) -> Result<Path<'_>, PathError> {
    Path::try_from(b)
}
pub fn val_pathbuf_try_from_vec(b: Vec<u8>) -> Result<PathBuf, PathError> {
    PathBuf::try_from(b)
}
pub fn val_pathbuf_try_from_bytes(b: &[u8]) -> Result<PathBuf, PathError> {
    PathBuf::try_from(b)
}
pub fn val_pathbuf_try_from_str(b: &str) -> Result<PathBuf, PathError> {
    PathBuf::try_from(b)
}
pub fn val_pathbuf_try_from_string(b: String) -> Result<PathBuf, PathError> {
    PathBuf::try_from(b)
}
pub fn val_pathbuf_try_from_osstring(b: std::ffi::OsString) -> Result<PathBuf, PathError> {
    PathBuf::try_from(b)
}
pub fn val_pathbuf_try_from_arr(b: &[u8; 16]) -> Result<PathBuf, PathError> {
    PathBuf::try_from(b)
}
pub fn val_pathbuf_from_path(p: Path<'_>) -> PathBuf {
    PathBuf::from(p)
}
pub fn val_path_is_absolute(p: Path<'_>) -> bool {
    p.is_absolute()
}
pub fn val_path_to_str_ok(p: Path<'_>) -> bool {
    p.to_str().is_ok()
}
pub fn val_pathbuf_is_absolute(p: &PathBuf) -> bool {
    p.is_absolute()
}
pub fn val_pathbuf_as_path(p: &PathBuf) -> Path<'_> {
    p.as_path()
}
pub fn val_pathbuf_empty() -> PathBuf {
    PathBuf::empty()
}
pub fn val_pathbuf_to_std(p: PathBuf) -> std::path::PathBuf {
    p.into()
}
/// `push` and `join` document a panic for an invalid argument; with an
/// argument that is itself a valid path they must not panic.
pub fn val_path_join_path(p: Path<'_>, q: Path<'_>) -> PathBuf {
    p.join(q)
}
pub fn val_pathbuf_push_path(p: &mut PathBuf, q: Path<'_>) {
    p.push(q)
}
pub fn doc_path_new(b: &[u8]) -> Path<'_> {
    Path::new(b)
}
pub fn doc_pathbuf_new(b: &[u8]) -> PathBuf {
    PathBuf::new(b)
}
pub fn doc_pathbuf_push(p: &mut PathBuf, b: &[u8]) {
    p.push(b)
}
pub fn val_components_new(p: Path<'_>) -> Components<'_> {
    p.components()
}
pub fn op_components_next<'a>(c: &mut Components<'a>) -> Option<Component<'a>> {
    c.next()
}
pub fn mgc_components(p: Path<'_>) {
    let mut c = p.components();
    loop {
        let _ = op_components_next(&mut c);
    }
}
pub fn val_component_normal(b: &[u8]) -> Result<Component<'_>, DirEntryNameError> {
    Component::normal(b)
}
pub fn val_component_eq(c: Component<'_>, b: &[u8]) -> bool {
    c == b
}
pub fn val_path_try_from_string(b: &String) -> Result<Path<'_>, PathError> {
    Path::try_from(b)
}
pub fn val_path_try_from_arr(b: &[u8; 16]) -> Result<Path<'_>, PathError> {
    Path::try_from(b)
}
pub fn val_path_try_from_long_arr(b: &[u8; 600]) -> Result<Path<'_>, PathError> {
    Path::try_from(b)
}
pub fn val_path_try_from_pathbuf(b: &PathBuf) -> Result<Path<'_>, PathError> {
    Path::try_from(b)
}
pub fn val_path_try_from_std(b: &std::path::Path) -> Result<Path<'_>, PathError> {
    Path::try_from(b)
}
pub fn val_pathbuf_try_from_string_ref(b: &String) -> Result<PathBuf, PathError> {
    PathBuf::try_from(b)
}
pub fn val_pathbuf_try_from_long_arr(b: &[u8; 600]) -> Result<PathBuf, PathError> {
    PathBuf::try_from(b)
}
pub fn val_pathbuf_try_from_std(b: std::path::PathBuf) -> Result<PathBuf, PathError> {
    PathBuf::try_from(b)
}
pub fn val_name_try_from_arr(b: &[u8; 16]) -> Result<DirEntryName<'_>, DirEntryNameError> {
    DirEntryName::try_from(b)
}
pub fn val_name_try_from_bytes(b: &[u8]) -> Result<DirEntryName<'_>, DirEntryNameError> {
    DirEntryName::try_from(b)
}
pub fn val_name_try_from_str(b: &str) -> Result<DirEntryName<'_>, DirEntryNameError> {
    DirEntryName::try_from(b)
}
pub fn val_name_as_str_ok(n: DirEntryName<'_>) -> bool {
    n.as_str().is_ok()
}
pub fn val_name_eq(n: DirEntryName<'_>, b: &[u8]) -> bool {
    n == b
}
pub fn val_path_eq(p: Path<'_>, b: &[u8]) -> bool {
    p == b
}
pub fn val_pathbuf_eq(p: &PathBuf, b: &[u8]) -> bool {
    *p == b
}
pub fn val_label(nd: &mut dyn Nondet) -> bool {
    let l = Label::new(nd.arr16());
    let _ = l.as_bytes();
    l.to_str().is_ok()
}
pub fn val_label_display(l: &Label) -> BytesDisplay<'_> {
    l.display()
}
pub fn val_uuid(nd: &mut dyn Nondet) -> [u8; 16] {
    *Uuid::new(nd.arr16()).as_bytes()
}
pub fn val_metadata(m: &Metadata) -> (FileType, bool, bool, u64, u16, u32, u32) {
    (m.file_type(), m.is_dir(), m.is_symlink(), m.len(), m.mode(), m.uid(), m.gid())
}
pub fn val_metadata_mode(m: &Metadata) -> u16 {
    m.mode()
}
pub fn val_file_type(t: FileType) -> [bool; 7] {
    [
        t.is_block_dev(),
        t.is_char_dev(),
        t.is_dir(),
        t.is_fifo(),
        t.is_regular_file(),
        t.is_socket(),
        t.is_symlink(),
    ]
}

// ---- errors --------------------------------------------------------------

pub fn err_as_io(e: &Ext4Error) -> bool {
    e.as_io().is_some()
}
pub fn err_into_io(e: Ext4Error) -> std::io::Error {
    std::io::Error::from(e)
}

// ---- readers -------------------------------------------------------------

pub fn rd_vec(v: &mut Vec<u8>, start: u64, dst: &mut [u8]) -> bool {
    Ext4Read::read(v, start, dst).is_ok()
}
pub fn rd_file(f: &mut std::fs::File, start: u64, dst: &mut [u8]) -> bool {
    Ext4Read::read(f, start, dst).is_ok()
}

// ---- formatting ----------------------------------------------------------

macro_rules! fmts {
    ($($n:ident $tr:ident $t:ty;)*) => {
        $(pub fn $n(x: &$t, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            std::fmt::$tr::fmt(x, f)
        })*
    };
}
fmts! {
    fmt_ext4 Debug Ext4;
    fmt_file Debug File;
    fmt_readdir Debug ReadDir;
    fmt_direntry Debug DirEntry;
    fmt_name Debug DirEntryName<'_>;
    fmt_path Debug Path<'_>;
    fmt_pathbuf Debug PathBuf;
    fmt_component Debug Component<'_>;
    fmt_label Debug Label;
    fmt_uuid Debug Uuid;
    fmt_uuid_display Display Uuid;
    fmt_error Debug Ext4Error;
    fmt_error_display Display Ext4Error;
    fmt_bytes_display Display BytesDisplay<'_>;
    fmt_path_error Display PathError;
    fmt_name_error Display DirEntryNameError;
    fmt_mem_error Display MemIoError;
}
