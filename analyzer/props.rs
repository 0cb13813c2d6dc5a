//! Properties of operations' results: which file types they accept, how links
//! are followed, what is decoded from where, what an error leaves behind.
use crate::drive;
use crate::exec::*;
use crate::prog::*;
use crate::rules::*;
use crate::solve::*;
use crate::state::*;
use crate::term::*;
use std::rc::Rc;

/// How the last path resolution ended: 0 not called, 1 found, 100+k error k.
pub const G_RES: Cell = 0x15;
/// File type of what the last path resolution found.
pub const G_FT: Cell = 0x16;
/// Encryption flag of the inode last found.
pub const G_ENC: Cell = 0x17;
/// Symbolic links followed so far.
pub const G_LINKS: Cell = 0x18;
/// Arguments: the object, the follow mode.
pub const G_OBJ: Cell = 0x19;
pub const G_FOLLOW: Cell = 0x1a;
/// The last name looked up: end of the name in the path, length of the path.
pub const G_NAME: Cell = 0x1b;
/// The last block read by a unit: block, offset, bytes.
pub const G_RD: Cell = 0x1c;
/// Number of block reads.
pub const G_RDN: Cell = 0x1d;
/// The last block number an iterator gave.
pub const G_FB: Cell = 0x1e;
/// Whether an iterator has ended.
pub const G_FIN: Cell = 0x1f;
/// Length of the path after it last grew, and whether it has to be checked.
pub const G_LEN: Cell = 0x21;
pub const G_PEND: Cell = 0x22;
pub const GH: &[Cell] = &[G_LEN, G_PEND, G_RES, G_FT, G_ENC, G_LINKS, G_OBJ, G_FOLLOW, G_NAME, G_RD, G_RDN, G_FB, G_FIN];

pub const RESOLVE: &str = "ext4_view::resolve::resolve_path";
pub const LOOKUP: &str = "ext4_view::dir::get_dir_entry_inode_by_name";
pub const TARGET: &str = "ext4_view::inode::Inode::symlink_target";
pub const RDNEW: &str = "ext4_view::ReadDir::new";
pub const READB: &str = "ext4_view::File::read_bytes";
pub const ENTRY: &str = "ext4_view::DirEntry::from_bytes";
pub const IREAD: &str = "ext4_view::inode::Inode::read";

pub fn reset(st: &mut State) {
    for c in GH {
        st.del(*c);
    }
    st.set(G_RES, V::int(0));
    st.set(G_LINKS, V::int(0));
    st.set(G_RDN, V::int(0));
    st.set(G_PEND, V::int(0));
    st.set(G_FIN, V::int(0));
}

// ---- parts of values --------------------------------------------------------------

/// The first part of a value that has the given type.
pub fn find_ty(e: &Eng, st: &mut State, v: &V, ty: usize, name: &str) -> Option<(V, usize)> {
    let short = |n: &str| n == name;
    if short(&e.p.tys[ty].name) || matches!(e.ty(ty), TyK::Adt { path, .. } if path == name) {
        return Some((v.clone(), ty));
    }
    match (e.ty(ty).clone(), v) {
        (TyK::Tuple(ts), V::Agg(a)) => {
            for (t, x) in ts.iter().zip(a.iter()) {
                if let Some(r) = find_ty(e, st, x, *t, name) {
                    return Some(r);
                }
            }
            None
        }
        (TyK::Ref(t, _), V::Ref(p)) => {
            let x = e.read(st, p);
            find_ty(e, st, &x, t, name)
        }
        (TyK::Adt { kind: AdtK::Struct, vars, .. }, V::Agg(a)) if vars.len() == 1 => {
            for (t, x) in vars[0].fields.iter().zip(a.iter()) {
                if let Some(r) = find_ty(e, st, x, t.1, name) {
                    return Some(r);
                }
            }
            None
        }
        // Single-field wrappers are represented by what they wrap.
        (TyK::Adt { kind: AdtK::Struct, vars, .. }, x) if vars.len() == 1 && vars[0].fields.len() == 1 => find_ty(e, st, x, vars[0].fields[0].1, name),
        _ => None,
    }
}
fn arg_ty(e: &Eng, st: &State, f: usize, args: &[V], name: &str) -> Option<(V, usize)> {
    let mut s = st.clone();
    for (a, t) in args.iter().zip(&e.p.fns[f].sig.0) {
        if let Some(r) = find_ty(e, &mut s, a, *t, name) {
            return Some(r);
        }
    }
    None
}
/// What a public accessor of a value returns.
pub fn access(e: &Eng, st: &State, v: &V, name: &str) -> Option<(State, V)> {
    let f = e.p.fns.iter().position(|f| f.name == name && f.body.is_some())?;
    let mut s = st.clone();
    let cell = hash(&("access", name));
    s.set(cell, v.clone());
    let n = e.log.borrow().len();
    let out = e.call(f, vec![V::Ref(Rc::new(Place::cell(cell)))], s, hash(&("access", name)), e.p.fns[f].sig.1);
    e.log.borrow_mut().truncate(n);
    match &out[..] {
        [(s, v)] => Some((s.clone(), v.clone())),
        _ => None,
    }
}
pub fn meta(e: &Eng, st: &State, v: &V, ty: usize, acc: &str) -> Option<V> {
    let mut s = st.clone();
    let (m, _) = find_ty(e, &mut s, v, ty, "ext4_view::Metadata")?;
    access(e, &s, &m, &format!("ext4_view::Metadata::{acc}")).map(|x| x.1)
}
pub fn file_type(e: &Eng, st: &State, v: &V, ty: usize) -> Option<Lin> {
    match meta(e, st, v, ty, "file_type")? {
        V::Enum(en) => Some(en.tag.clone()),
        _ => None,
    }
}
fn ft_names(e: &Eng) -> Vec<String> {
    for t in &e.p.tys {
        if t.name == "ext4_view::FileType" {
            if let TyK::Adt { vars, .. } = &t.k {
                return vars.iter().map(|v| v.name.clone()).collect();
            }
        }
    }
    vec![]
}
fn enc_bit(e: &Eng, st: &State, v: &V, ty: usize) -> Option<Lin> {
    let mut s = st.clone();
    match find_ty(e, &mut s, v, ty, "ext4_view::inode::InodeFlags")?.0 {
        V::Int(l) => Some(bit(&l, 11)),
        V::Agg(a) => match flat(&V::Agg(a)) {
            Some(V::Int(l)) => Some(bit(&l, 11)),
            _ => None,
        },
        _ => None,
    }
}
fn flat(v: &V) -> Option<V> {
    match v {
        V::Agg(a) if a.len() == 1 => flat(&a[0]),
        V::Agg(_) => None,
        v => Some(v.clone()),
    }
}
fn lin(v: &V) -> Option<Lin> {
    match flat(v)? {
        V::Int(l) => Some(l),
        _ => None,
    }
}
fn err_names(e: &Eng) -> Vec<String> {
    for t in &e.p.tys {
        if t.name == "ext4_view::Ext4Error" {
            if let TyK::Adt { vars, .. } = &t.k {
                return vars.iter().map(|v| v.name.clone()).collect();
            }
        }
    }
    vec![]
}
fn ob(e: &Eng, rule: &'static str, what: &str, ok: bool, imp: bool, text: impl FnOnce() -> String) {
    e.ob(rule, format!("{}: {}", e.here(), what), if ok { String::new() } else { text() }, ok, imp);
}
fn l16(d: &dyn Fn(i128, u8) -> Lin, o: i128) -> Lin {
    d(o, 2)
}

// ---- events -------------------------------------------------------------------------

pub fn on_enter(e: &Eng, st: &mut State, f: usize, args: &[V]) {
    reset(st);
    crate::names::on_enter(e, st, f, args);
    let name = &e.p.fns[f].name;
    if name == RESOLVE && e.on("C11") {
        if let Some((_, _, len)) = path_arg(e, f, args, st) {
            st.set(G_LEN, V::Int(len));
            st.set(G_PEND, V::int(1));
        }
        let v = thresholds(e, name);
        crate::merge::EXTRA.with(|x| *x.borrow_mut() = v);
        if let Some((V::Enum(en), _)) = arg_ty(e, st, f, args, "ext4_view::resolve::FollowSymlinks") {
            st.set(G_FOLLOW, V::Int(en.tag.clone()));
        }
    }
    if e.on("C07") && name.contains("::pr_") || e.on("C16") && name == READB {
        if let Some(V::Ref(p)) = args.first() {
            let v = e.read(st, p);
            st.set(G_OBJ, v);
        }
    }
}
/// A unit is about to be called by another.
pub fn on_unit(e: &Eng, st: &mut State, f: usize, args: &[V]) {
    let name = e.p.fns[f].name.clone();
    if e.on("C11") {
        if name == RESOLVE {
            follow_mode(e, st, f, args);
        }
        if name == TARGET && *e.root.borrow() == RESOLVE {
            follow_link(e, st);
        }
        if name == LOOKUP && *e.root.borrow() == RESOLVE {
            looked_up(e, st, f, args);
        }
    }
    if e.on("C17") && name == crate::cut::READ {
        let n = match st.get(G_RDN) {
            V::Int(l) => l.is_c().unwrap_or(2),
            _ => 2,
        };
        st.set(G_RDN, V::int((n + 1).min(2)));
        let data = e.root.borrow().contains("read_bytes") || e.root.borrow().contains("pr_");
        if data {
            if let Some(V::Int(b)) = args.iter().find(|a| matches!(a, V::Int(_))) {
                check(e, "C17", "block read as file data", st, &ge(b, &Lin::c(1)), "block 0, which stands for a hole, is read from the device".into());
            }
        }
    }
}
/// The result of a unit called by another; may be split into cases.
pub fn on_outcome(e: &Eng, f: usize, args: &[V], out: Out, dty: usize) -> Out {
    let name = e.p.fns[f].name.clone();
    if name == RESOLVE && (e.on("C10") || e.on("C12")) {
        return found(e, out, dty);
    }
    if name == crate::cut::READ && (e.on("C15") || e.on("C04") || e.on("C17")) {
        let mut r = vec![];
        for (mut s, v) in out {
            let mut ints = args.iter().filter_map(|a| if let V::Int(l) = a { Some(V::Int(l.clone())) } else { None });
            let (b, o) = (ints.next().unwrap_or(V::unit()), ints.next().unwrap_or(V::unit()));
            if let Some(d) = args.iter().find(|a| matches!(a, V::MSlice(..))) {
                if let Some((c, off, len)) = e.bytes(&mut s, d) {
                    s.set(G_RD, V::agg(vec![b, o, V::Buf { c, off, len }]));
                }
            }
            r.push((s, v));
        }
        return r;
    }
    crate::names::returned(e, out, dty)
}
/// The value with the enum that has this tag taken to be a certain variant.
fn with_tag(v: &V, tag: &Lin, k: usize) -> V {
    match v {
        V::Enum(en) if en.tag == *tag => {
            let mut en = (**en).clone();
            en.tag = Lin::c(k as i128);
            V::Enum(Rc::new(en))
        }
        V::Agg(a) => V::Agg(Rc::new(a.iter().map(|x| with_tag(x, tag, k)).collect())),
        v => v.clone(),
    }
}
/// The inode a path resolves to, by file type; the error, by kind.
fn found(e: &Eng, out: Out, dty: usize) -> Out {
    let names = err_names(e);
    let mut r = vec![];
    for (st, v) in out {
        for (mut s, x) in results(e, &st, &v, dty) {
            match x {
                Res::Val(p, ty) => {
                    let v = e.ok(dty, p.clone());
                    s.set(G_RES, V::int(1));
                    if let Some(b) = enc_bit(e, &s, &p, ty) {
                        s.set(G_ENC, V::Int(b));
                    }
                    let Some(tag) = file_type(e, &s, &p, ty) else {
                        s.imp = true;
                        r.push((s, v.clone()));
                        continue;
                    };
                    for (k, _) in ft_names(e).iter().enumerate() {
                        let mut t = s.clone();
                        if t.assume(&eq(&tag, &Lin::c(k as i128))) {
                            t.set(G_FT, V::int(k as i128));
                            r.push((t, e.ok(dty, with_tag(&p, &tag, k))));
                        }
                    }
                }
                Res::Err(k, q, _) => {
                    let n = names.iter().position(|n| *n == k).unwrap_or(0);
                    s.set(G_RES, V::int(100 + n as i128));
                    let v = e.err(dty, e.en(targ(e, dty, 1), n, q));
                    r.push((s, v));
                }
                Res::End => r.push((s, v.clone())),
            }
        }
    }
    r
}
/// Exits of an operation before they are joined.
pub fn on_exits(e: &Eng, f: usize, args: &[V], out: &[(State, V)]) {
    crate::names::on_exits(e, f, args, out);
    let name = e.p.fns[f].name.clone();
    let rty = e.p.fns[f].sig.1;
    let root = name.rsplit("::").next().unwrap_or("").to_string();
    if e.on("C09") && (root == "api_load" || root == "api_load_from_path") {
        accepted(e, out, rty);
    }
    if e.on("C10") {
        if root.starts_with("api_") || root.starts_with("alt_") {
            by_type(e, &root, out, rty);
        }
        if name == RESOLVE {
            absolute(e, f, args, out, rty);
        }
    }
    if e.on("C12") && (name == LOOKUP || name == RDNEW) {
        encrypted(e, f, args, out, rty);
    }
    if e.on("C12") && root == "api_read_dir" {
        for (st, v) in out {
            for (s, r) in results(e, st, v, rty) {
                if let (Res::Val(..), V::Int(b)) = (&r, s.get(G_ENC)) {
                    check(e, "C12", "listing", &s, &eq(&b, &Lin::c(0)), "an encrypted directory can be listed".into());
                }
            }
        }
    }
    if e.on("C11") && name == RESOLVE {
        resolved(e, out, rty);
    }
    if e.on("C14") {
        if root == "pr_readdir_done" {
            finished(e, out);
        }
        if name == ENTRY {
            in_use(e, f, args, out, rty);
        }
    }
    if e.on("C15") {
        if name == IREAD {
            inode_fields(e, f, args, out, rty);
        }
        if root == "api_label" || root == "api_uuid" {
            let off = if root == "api_label" { 0x78 } else { 0x68 };
            for (s, v) in out {
                let (ok, imp, what) = match flat(v) {
                    Some(b) => same_as_dev(e, s, &b, &Lin::c(1024 + off)),
                    None => (false, true, v.show()),
                };
                ob(e, "C15", "bytes", ok, imp || s.imp, || format!("the value returned is not the 16 bytes at {off:#x} of the superblock ({what})"));
            }
        }
    }
    if e.on("C16") || e.on("C07") {
        match root.as_str() {
            "pr_read" => advance(e, out, rty),
            "pr_seek" | "pr_seek_start" | "pr_seek_end" | "pr_seek_current" => moved(e, &root, args, out, rty),
            _ => {}
        }
        if name == READB && e.on("C16") {
            read_limits(e, f, args, out, rty);
        }
    }
    if name == READB {
        delivered(e, args, out, rty);
    }
}

// ---- C09 ------------------------------------------------------------------------------

/// Bits of the incompatible features the library can read.
const KNOWN: &[u32] = &[1, 2, 6, 7, 9, 13, 16];
const NEEDED: u32 = 1;
fn incompat(k: u32) -> Lin {
    bit(&dev(1024 + 0x60, 4), k)
}
/// The field is the sum of its bits.
fn with_bits(s: &State) -> State {
    let mut s = s.clone();
    let f = dev(1024 + 0x60, 4);
    let sum = (0..32).fold(Lin::c(0), |a, k| a.add(&incompat(k).scale(1i128 << k)));
    s.assume(&eq(&f, &sum));
    s
}
fn accepted(e: &Eng, out: &[(State, V)], rty: usize) {
    for (st, v) in out {
        for (s, r) in results(e, st, v, rty) {
            let s = with_bits(&s);
            match r {
                Res::Val(..) => {
                    check(e, "C09", "magic", &s, &eq(&dev(1024 + 0x38, 2), &Lin::c(0xef53)), "a filesystem without the magic number is accepted".into());
                    check(e, "C09", "block size", &s, &ge(&Lin::c(65536), &block_size()), "a block size above 64 KiB is accepted".into());
                    check(e, "C09", "required feature", &s, &eq(&incompat(NEEDED), &Lin::c(1)), "a filesystem without file types in directory entries is accepted".into());
                    for k in (0..32).filter(|k| !KNOWN.contains(k)) {
                        check(e, "C09", &format!("feature {:#x}", 1u32 << k), &s, &eq(&incompat(k), &Lin::c(0)), format!("a filesystem with the unsupported feature {:#x} is accepted", 1u32 << k));
                    }
                }
                // An error passed on from another unit is that unit's.
                Res::Err(_, _, false) => {}
                Res::Err(k, _, true) => {
                    let ok = ["Corrupt", "Incompatible", "Io", "FileTooLarge"].contains(&k.as_str());
                    ob(e, "C09", "error", ok, s.imp, || format!("loading fails with the error {k}"));
                }
                Res::End => {}
            }
        }
    }
}
/// A fact that cannot hold when no unsupported feature is present.
fn excluded(f: &Fact) -> bool {
    let word = dev(1024 + 0x60, 4);
    let Fact::Ne(l) = f else { return false };
    let Some((w, _)) = word.single() else { return false };
    let Some((_, c)) = l.t.iter().find(|x| x.0 == w) else { return false };
    let sum = (0..32).filter(|k| KNOWN.contains(k)).fold(Lin::c(0), |a, k| a.add(&incompat(k).scale(1i128 << k)));
    let mut l = l.sub(&word.scale(*c)).add(&sum.scale(*c));
    let none: Vec<_> = (0..32).filter(|k| !KNOWN.contains(k)).filter_map(|k| incompat(k).single()).map(|x| x.0).collect();
    l.t.retain(|x| !none.contains(&x.0));
    l.is_c() == Some(0)
}
/// An enum value is made.
pub fn on_make(e: &Eng, st: &State, ty: usize, var: usize) {
    if !e.on("C09") || e.loaded.get() || e.prefix.get() {
        return;
    }
    let TyK::Adt { path, vars, .. } = e.ty(ty) else { return };
    if path == "ext4_view::error::IncompatibleKind" || path == "ext4_view::IncompatibleKind" {
        let k = &vars[var].name;
        let st = &with_bits(st);
        if k.contains("Unsupported") {
            let mut t = st.clone();
            let feasible = (0..32).filter(|k| !KNOWN.contains(k)).all(|k| t.assume(&eq(&incompat(k), &Lin::c(0))));
            let ok = !feasible || refute(&t.facts, &[], 1) || st.facts.0.iter().any(excluded);
            ob(e, "C09", "refused", ok, st.imp, || "a filesystem all of whose features are supported is refused as incompatible".into());
        } else if k.contains("Missing") {
            check(e, "C09", "refused", st, &eq(&incompat(NEEDED), &Lin::c(0)), "a filesystem that has the required feature is refused for missing it".into());
        }
    }
}

// ---- C10 ------------------------------------------------------------------------------

fn by_type(e: &Eng, root: &str, out: &[(State, V)], rty: usize) {
    let op = root.trim_start_matches("api_").trim_start_matches("alt_");
    let kind = if op.starts_with("read_dir") {
        "dir"
    } else if op.starts_with("read_link") {
        "link"
    } else if op.starts_with("open") || op.starts_with("read") {
        "file"
    } else if op.starts_with("exists") {
        "exists"
    } else if op.starts_with("metadata") || op.starts_with("symlink_metadata") || op.starts_with("canonicalize") {
        "any"
    } else {
        return;
    };
    let errs = err_names(e);
    let fts = ft_names(e);
    for (st, v) in out {
        for (s, r) in results(e, st, v, rty) {
            let res = gint(&s, G_RES).unwrap_or(-1);
            let ft = gint(&s, G_FT).and_then(|k| fts.get(k as usize)).cloned().unwrap_or_default();
            let imp = s.imp || res < 0;
            // An error passed on from another unit may be any.
            let imp = imp || matches!(&r, Res::Err(_, _, false));
            let (got, yes) = match &r {
                Res::Val(b, _) => (
                    "success".to_string(),
                    match b {
                        V::Bool(c) => decide(&s, c),
                        _ => true,
                    },
                ),
                Res::Err(k, _, _) => (k.clone(), false),
                Res::End => ("the end".into(), false),
            };
            if res == 0 {
                ob(e, "C10", "without resolving", got == "MalformedPath", imp, || format!("the path is never resolved, and the operation ends with {got} instead of the malformed-path error"));
                continue;
            }
            if res >= 100 {
                let want = &errs[(res - 100) as usize];
                if kind == "exists" && want == "NotFound" {
                    let no = match &r {
                        Res::Val(V::Bool(c), _) => decide(&s, &c.not()),
                        _ => false,
                    };
                    ob(e, "C10", "not found", no, imp, || format!("for a path that does not exist the query ends with {got}, not a negative answer"));
                } else {
                    ob(e, "C10", "error of the resolution", got == *want, imp, || format!("resolving the path fails with {want}, the operation ends with {got}"));
                }
                continue;
            }
            let want_ok = |ok: bool, text: String| ob(e, "C10", "file type", ok, imp, || text);
            match kind {
                "file" => {
                    let exp = match ft.as_str() {
                        "Regular" => "",
                        "Directory" => "IsADirectory",
                        _ => "IsASpecialFile",
                    };
                    let ok = if exp.is_empty() { got != "IsADirectory" && got != "IsASpecialFile" } else { got == exp };
                    want_ok(ok, format!("for a file of type {ft} the operation ends with {got}"));
                }
                "dir" => want_ok((ft == "Directory") != (got == "NotADirectory"), format!("for a file of type {ft} listing ends with {got}")),
                "link" => want_ok((ft == "Symlink") != (got == "NotASymlink"), format!("for a file of type {ft} reading the link ends with {got}")),
                "exists" => want_ok(got == "success" && yes, format!("for a path that exists the query ends with {got}")),
                _ => want_ok(got == "success", format!("for a path that exists the operation ends with {got}")),
            }
        }
    }
}
fn path_arg(e: &Eng, f: usize, args: &[V], st: &State) -> Option<(Cid, Lin, Lin)> {
    let mut s = st.clone();
    let (v, _) = arg_ty(e, &s, f, args, "ext4_view::Path")?;
    let v = flat(&v)?;
    e.bytes(&mut s, &v)
}
fn absolute(e: &Eng, f: usize, args: &[V], out: &[(State, V)], rty: usize) {
    for (st, v) in out {
        for (s, r) in results(e, st, v, rty) {
            let Some((c, o, len)) = path_arg(e, f, args, &s) else { continue };
            let first = e.load(&s, c, &o, 1, false);
            let abs = Cond::and(vec![ge(&len, &Lin::c(1)), eq(&first, &Lin::c(b'/' as i128))]);
            // What other units report is theirs.
            if matches!(r, Res::Err(_, _, false)) {
                continue;
            }
            match r {
                Res::Err(k, _, _) if k == "NotAbsolute" => {}
                _ => check(e, "C10", "relative path", &s, &abs, "a relative path is not refused".into()),
            }
        }
    }
}

/// Constants that functions of the same module compare something with.
fn thresholds(e: &Eng, name: &str) -> Vec<i128> {
    let Some((module, _)) = name.rsplit_once("::") else { return vec![] };
    let mut out = std::collections::BTreeSet::new();
    for f in &e.p.fns {
        let Some(b) = f.body.as_ref().filter(|_| f.name.starts_with(module)) else { continue };
        for s in b.blocks.iter().flat_map(|b| b.s.iter()) {
            let St::Assign(_, Rv::Bin(o, x, y), _) = s else { continue };
            if !["Lt", "Le", "Gt", "Ge"].contains(&o.as_str()) {
                continue;
            }
            for x in [x, y] {
                if let Op::Const(t, j) = x {
                    if let V::Int(l) = e.konst(&mut State::new(), *t, j) {
                        out.extend(l.is_c().filter(|c| (2..1 << 20).contains(c)));
                    }
                }
            }
        }
    }
    out.into_iter().collect()
}

// ---- C11 ------------------------------------------------------------------------------

fn follow_mode(e: &Eng, st: &State, f: usize, args: &[V]) {
    let root = e.root.borrow().clone();
    let nofollow = root.contains("read_link") || root.contains("symlink_metadata");
    if !root.contains("api_") && !root.contains("alt_") {
        return;
    }
    let Some((V::Enum(en), ty)) = arg_ty(e, st, f, args, "ext4_view::resolve::FollowSymlinks") else { return };
    let all = e.variant(ty, "All");
    let c = eq(&en.tag, &Lin::c(all as i128));
    check(e, "C11", "follow mode", st, &if nofollow { c.not() } else { c }, if nofollow { "the final symbolic link is followed".into() } else { "the final symbolic link is not followed".into() });
}
fn follow_link(e: &Eng, st: &mut State) {
    let V::Int(n) = st.get(G_LINKS) else { return };
    let n = n.addk(1);
    check(e, "C11", "number of links", st, &ge(&Lin::c(40), &n), "more than 40 symbolic links are followed".into());
    st.set(G_LINKS, V::Int(n));
    if let (V::Int(m), V::Agg(a)) = (st.get(G_FOLLOW), st.get(G_NAME)) {
        if let (V::Int(end), V::Int(plen)) = (&a[0], &a[1]) {
            let c = Cond::or(vec![eq(&m, &Lin::c(0)), ge(plen, &end.addk(2))]);
            check(e, "C11", "link followed", st, &c, "the final symbolic link is followed although the mode forbids it".into());
        }
    }
}
fn looked_up(e: &Eng, st: &mut State, f: usize, args: &[V]) {
    st.del(G_NAME);
    let Some((v, _)) = arg_ty(e, st, f, args, "ext4_view::DirEntryName") else { return };
    let Some(v) = flat(&v) else { return };
    let V::View { c, off, len: l } = &v else {
        ob(e, "C11", "working path", false, true, || "not tracked".into());
        return;
    };
    grown(e, st);
    // The buffer the name is a part of.
    let mut bufs = vec![];
    for x in st.mem.values() {
        buffers(x, *c, &mut bufs);
    }
    let Some((o, len)) = bufs.pop() else {
        ob(e, "C11", "working path", false, true, || "not tracked".into());
        return;
    };
    st.set(G_NAME, V::agg(vec![V::Int(off.add(l).sub(&o)), V::Int(len)]));
}
/// A buffer has grown by other bytes.
pub fn on_grow(e: &Eng, st: &mut State, len: &Lin) {
    if e.on("C11") && !e.prefix.get() && *e.root.borrow() == RESOLVE {
        st.set(G_LEN, V::Int(len.clone()));
        st.set(G_PEND, V::int(1));
    }
}
fn grown(e: &Eng, st: &mut State) {
    if gint(st, G_PEND) != Some(0) {
        if let V::Int(l) = st.get(G_LEN) {
            check(e, "C11", "length of the path", st, &ge(&Lin::c(4096), &l), "the working path can be longer than 4096 bytes".into());
        }
        st.set(G_LEN, V::int(0));
        st.set(G_PEND, V::int(0));
    }
}
/// A path that has grown and was found short enough is done with.
pub fn settle(e: &Eng, st: &mut State) {
    crate::names::settle(e, st);
    if e.on("C11") && gint(st, G_PEND) == Some(1) {
        if let V::Int(l) = st.get(G_LEN) {
            if st.holds(&ge(&Lin::c(4096), &l)) {
                if l.is_c() != Some(0) {
                    ob(e, "C11", "length of the path", true, false, String::new);
                }
                st.set(G_LEN, V::int(0));
                st.set(G_PEND, V::int(0));
            }
        }
    }
}
fn buffers(v: &V, id: Cid, out: &mut Vec<(Lin, Lin)>) {
    match v {
        V::Buf { c, off, len } if *c == id => out.push((off.clone(), len.clone())),
        V::Agg(a) => a.iter().for_each(|x| buffers(x, id, out)),
        _ => {}
    }
}
fn resolved(e: &Eng, out: &[(State, V)], rty: usize) {
    for (st, v) in out {
        for (mut s, r) in results(e, st, v, rty) {
            if matches!(r, Res::Val(..)) {
                grown(e, &mut s);
            }
            match r {
                Res::Err(k, _, true) if k == "TooManySymlinks" => {
                    if let V::Int(n) = s.get(G_LINKS) {
                        check(e, "C11", "too-many-links error", &s, &ge(&n, &Lin::c(40)), "the too-many-symlinks error is given before 40 links were followed".into());
                    }
                }
                _ => {}
            }
        }
    }
}

// ---- C12 ------------------------------------------------------------------------------

fn encrypted(e: &Eng, f: usize, args: &[V], out: &[(State, V)], rty: usize) {
    for (st, v) in out {
        for (s, r) in results(e, st, v, rty) {
            let Some((iv, ty)) = arg_ty(e, &s, f, args, "ext4_view::inode::Inode") else { continue };
            let Some(b) = enc_bit(e, &s, &iv, ty) else { continue };
            match r {
                Res::Err(k, _, _) if k == "Encrypted" => {}
                Res::Err(k, _, _) => check(e, "C12", "other error", &s, &eq(&b, &Lin::c(0)), format!("an encrypted directory gives the error {k} instead of the encrypted error")),
                _ => check(e, "C12", "success", &s, &eq(&b, &Lin::c(0)), "an encrypted directory can be used".into()),
            }
        }
    }
}

// ---- C14 ------------------------------------------------------------------------------

/// What the two calls after an error or the end gave.
fn finished(e: &Eng, out: &[(State, V)]) {
    for (s, v) in out {
        let V::Agg(a) = v else { continue };
        for (i, x) in a.iter().enumerate() {
            let V::Bool(x) = x else { continue };
            check(e, "C14", &format!("finished, call {}", i + 1), s, &x.clone().not(), "the iterator returns an item after an error or the end".into());
        }
    }
}
/// The inode number of an entry is the record's.
fn in_use(e: &Eng, _f: usize, args: &[V], out: &[(State, V)], rty: usize) {
    for (st, v) in out {
        for (mut s, r) in results(e, st, v, rty) {
            let Res::Val(V::Agg(a), ty) = r else { continue };
            let TyK::Tuple(ts) = e.ty(ty).clone() else { continue };
            let Some((c, off)) = args.iter().find_map(|x| match e.bytes(&mut s, x) {
                Some((c, off, _)) => Some((c, off)),
                None => None,
            }) else {
                ob(e, "C14", "entry in use", false, true, || "the record's bytes are not tracked".into());
                continue;
            };
            for (t, k, p) in cases(e, &s, &a[0], ts[0]) {
                if k != "Some" {
                    continue;
                }
                let n = e.load(&t, c, &off, 4, false);
                check(e, "C14", "entry in use", &t, &ge(&n, &Lin::c(1)), "a record with inode number zero is an entry".into());
                let TyK::Adt { targs, .. } = e.ty(ts[0]).clone() else { continue };
                let mut t = t;
                match p.first().and_then(|p| find_ty(e, &mut t, p, targs[0], "ext4_view::inode::InodeIndex")).or_else(|| p.first().and_then(|p| find_ty(e, &mut t, p, targs[0], "std::num::NonZero"))).and_then(|x| lin(&x.0)) {
                    Some(i) => check(e, "C14", "entry's inode", &t, &eq(&i, &n), "the entry's inode is not the one of its record".into()),
                    None => ob(e, "C14", "entry's inode", false, true, || "not tracked".into()),
                }
            }
        }
    }
}

// ---- C15 ------------------------------------------------------------------------------

fn inode_fields(e: &Eng, _f: usize, _args: &[V], out: &[(State, V)], rty: usize) {
    for (st, v) in out {
        for (s, r) in results(e, st, v, rty) {
            let Res::Val(v, ty) = r else { continue };
            let V::Agg(a) = s.get(G_RD) else {
                ob(e, "C15", "inode bytes", false, true, || "the bytes of the inode are not identified".into());
                continue;
            };
            let V::Buf { c, off, .. } = &a[2] else { continue };
            let at = |o: i128, n: u8| e.load(&s, *c, &off.addk(o), n, false);
            let mode = l16(&at, 0);
            let want = [
                ("uid", at(2, 2).add(&at(0x78, 2).scale(1 << 16))),
                ("gid", at(0x18, 2).add(&at(0x7a, 2).scale(1 << 16))),
                ("len", at(4, 4).add(&at(0x6c, 4).scale(1 << 32))),
                ("mode", bitand(&mode, &Lin::c(0o7777), 16)),
            ];
            for (acc, w) in want {
                match meta(e, &s, &v, ty, acc).and_then(|x| lin(&x)) {
                    Some(l) => check(e, "C15", acc, &s, &eq(&l, &w), format!("{acc} is {} but the inode says {}", show(&l), show(&w))),
                    None => ob(e, "C15", acc, false, true, || "not tracked".into()),
                }
            }
            let Some(tag) = file_type(e, &s, &v, ty) else {
                ob(e, "C15", "file_type", false, true, || "not tracked".into());
                continue;
            };
            for (k, n) in ft_names(e).iter().enumerate() {
                let code = match n.as_str() {
                    "Regular" => 8,
                    "Directory" => 4,
                    "Symlink" => 10,
                    "CharacterDevice" => 2,
                    "BlockDevice" => 6,
                    "Fifo" => 1,
                    "Socket" => 12,
                    _ => continue,
                };
                let mut t = s.clone();
                if t.assume(&eq(&tag, &Lin::c(k as i128))) {
                    check(e, "C15", "file_type", &t, &eq(&bitand(&mode, &Lin::c(0xf000), 16), &Lin::c(code << 12)), format!("file type {n} for a mode whose type is not {code:#x}"));
                }
            }
        }
    }
}

// ---- C16, C07 -------------------------------------------------------------------------

/// (position, size, result, position after) of a read.
fn advance(e: &Eng, out: &[(State, V)], rty: usize) {
    let TyK::Tuple(ts) = e.ty(rty).clone() else { return };
    for (st, v) in out {
        let V::Agg(a) = v else { continue };
        let (Some(pos), Some(size), Some(after)) = (lin(&a[0]), lin(&a[1]), lin(&a[3])) else { continue };
        for (s, r) in results(e, st, &a[2], ts[2]) {
            match r {
                Res::Val(n, _) => {
                    let Some(n) = lin(&n) else { continue };
                    check(e, "C16", "read: position", &s, &eq(&after, &pos.add(&n)), "a read does not advance the position by the count it returns".into());
                }
                Res::Err(k, _, _) => check(e, "C07", "read: position", &s, &eq(&after, &pos), format!("a read that fails with {k} moves the position")),
                Res::End => {}
            }
        }
    }
}
/// What one read of a file may give.
fn read_limits(e: &Eng, f: usize, args: &[V], out: &[(State, V)], rty: usize) {
    let Some(V::MSlice(_, _, blen)) = args.iter().find(|a| matches!(a, V::MSlice(..))) else { return };
    let fty = match e.p.fns[f].sig.0.first().map(|t| e.ty(*t).clone()) {
        Some(TyK::Ref(t, _)) => t,
        _ => return,
    };
    for (st, v) in out {
        for (s, r) in results(e, st, v, rty) {
            let Res::Val(n, _) = r else { continue };
            let obj = s.get(G_OBJ);
            let pos = access(e, &s, &obj, "ext4_view::File::position").and_then(|x| lin(&x.1));
            let size = meta(e, &s, &obj, fty, "len").and_then(|l| lin(&l));
            let (Some(n), Some(pos), Some(size)) = (lin(&n), pos, size) else {
                ob(e, "C16", "read: limits", false, true, || "not tracked".into());
                continue;
            };
            check(e, "C16", "read: count", &s, &ge(blen, &n), "a read returns more than the buffer holds".into());
            check(e, "C16", "read: size", &s, &Cond::or(vec![eq(&n, &Lin::c(0)), ge(&size, &pos.add(&n))]), "a read goes past the end of the file".into());
            let mut t = s.clone();
            if t.assume(&eq(&n, &Lin::c(0))) {
                check(e, "C16", "read: zero", &t, &Cond::or(vec![eq(blen, &Lin::c(0)), ge(&pos, &size)]), "a read returns zero before the end of the file".into());
            }
        }
    }
}
/// Every byte a read of a file returns is zero or what a block read of the
/// same call delivered.
fn delivered(e: &Eng, args: &[V], out: &[(State, V)], rty: usize) {
    if !e.on("C17") {
        return;
    }
    let Some(dst) = args.iter().find(|a| matches!(a, V::MSlice(..))) else { return };
    for (st, v) in out {
        for (mut s, r) in results(e, st, v, rty) {
            let Res::Val(n, _) = r else { continue };
            let Some(n) = lin(&n) else { continue };
            let Some((c, o, _)) = e.bytes(&mut s, dst) else {
                ob(e, "C17", "bytes returned", false, true, || "not tracked".into());
                continue;
            };
            let i = sym(hash(&"somebyte"), Some(0), Some(umax(63)));
            if !s.assume(&ge(&n, &i.addk(1))) {
                continue;
            }
            let b = e.load(&s, c, &o.add(&i), 1, false);
            let read = match s.get(G_RD) {
                V::Agg(a) => match a.get(2) {
                    Some(V::Buf { c, off, .. }) => Some(e.load(&s, *c, &off.add(&i), 1, false)),
                    _ => None,
                },
                _ => None,
            };
            let mut ways = vec![eq(&b, &Lin::c(0))];
            ways.extend(read.as_ref().map(|r| eq(&b, r)));
            // Or part of what was read, copied from where it was read to.
            let part = |l: &Lin| match l.single().map(|x| atom(x.0)) {
                Some(Atom::Load(c, ..)) => Some(c),
                _ => None,
            };
            let copied = read.as_ref().is_some_and(|r| part(r).is_some() && part(r) == part(&b));
            let ok = copied || ways.iter().any(|w| decide(&s, w));
            ob(e, "C17", "bytes returned", ok, s.imp || b.imp() || crate::ck::looped(c), || format!("a read returns bytes that are neither zero nor read from a block ({} [{}])", show(&b), read.map_or("no block read".into(), |r| show(&r))));
        }
    }
}
/// (position, size, result, position after) of a seek.
fn moved(e: &Eng, root: &str, args: &[V], out: &[(State, V)], rty: usize) {
    let TyK::Tuple(ts) = e.ty(rty).clone() else { return };
    let V::Int(arg) = &args[1] else { return };
    for (st, v) in out {
        let V::Agg(a) = v else { continue };
        let (Some(pos), Some(size), Some(after)) = (lin(&a[0]), lin(&a[1]), lin(&a[3])) else { continue };
        for (s, k, p) in cases(e, st, &a[2], ts[2]) {
            let (w, target) = match root {
                "pr_seek_end" => ("from the end", size.add(arg)),
                "pr_seek_current" => ("from the position", pos.add(arg)),
                _ => ("from the start", arg.clone()),
            };
            if k == "Ok" {
                check(e, "C16", "seek: position", &s, &eq(&after, &target), format!("a seek {w} does not move to the offset asked for"));
                if let Some(r) = p.first().and_then(lin) {
                    check(e, "C16", "seek: result", &s, &eq(&r, &target), format!("a seek {w} does not return the new position"));
                }
                continue;
            }
            check(e, "C07", "seek: position", &s, &eq(&after, &pos), "a seek that fails moves the position".into());
            if let (Some(V::Ref(p)), true) = (args.first(), e.on("C07")) {
                let mut t = s.clone();
                let now = e.read(&mut t, p);
                let was = t.get(G_OBJ);
                let ok = now == was;
                ob(e, "C07", "seek: object", ok, s.imp || matches!(was, V::Uninit | V::Top(..)), || "a seek that fails changes the file object".into());
            }
        }
    }
}

// ---- C20 ------------------------------------------------------------------------------

/// The conversion, variant by variant.
pub fn conversion(e: &Eng) {
    let f = drive::root(e, "err_into_io");
    let ty = e.p.fns[f].sig.0[0];
    let TyK::Adt { vars, .. } = e.ty(ty).clone() else { return };
    let kinds = e.p.tys.iter().position(|t| t.name == "std::io::ErrorKind");
    for (k, x) in vars.iter().enumerate() {
        let mut st = State::new();
        *e.root.borrow_mut() = "err_into_io".into();
        st.set(G_IO, V::int(0));
        let vals: Vec<V> = x.fields.iter().enumerate().map(|(i, t)| e.sym_v(&mut st, t.1, hash(&("payload", i)))).collect();
        let v = e.en(ty, k, vals.clone());
        let out = e.call(f, vec![v.clone()], st, hash(&"conversion"), e.p.fns[f].sig.1);
        let what = format!("<ext4_view::Ext4Error into std::io::Error>: {}", x.name);
        let want = match x.name.as_str() {
            "IsASpecialFile" | "MalformedPath" | "NotASymlink" | "NotAbsolute" => "InvalidInput",
            "FileTooLarge" => "FileTooLarge",
            "IsADirectory" => "IsADirectory",
            "NotADirectory" => "NotADirectory",
            "NotFound" => "NotFound",
            "NotUtf8" => "InvalidData",
            "Encrypted" => "PermissionDenied",
            "Corrupt" | "Incompatible" | "PathTooLong" | "TooManySymlinks" => "self",
            "Io" => "inner",
            _ => continue,
        };
        for (s, r) in out {
            let V::Agg(a) = &r else {
                e.ob("C20", what.clone(), "the result is not tracked".into(), false, true);
                continue;
            };
            let kind = lin(&a[0]).and_then(|l| l.is_c());
            let ok = match want {
                "self" => kind == Some(-1) && a[1] == v,
                "inner" => kind == Some(-1) && a[1] == vals[0],
                n => kinds.is_some_and(|t| kind == Some(e.variant(t, n) as i128)),
            };
            let text = match want {
                "self" => format!("{} does not become an error of kind Other that carries it", x.name),
                "inner" => "the reader's own error is not kept".to_string(),
                n => format!("{} does not become an error of kind {}", x.name, n),
            };
            e.ob("C20", what.clone(), if ok { String::new() } else { format!("{} ({})", text, r.show()) }, ok, s.imp || kind.is_none());
        }
    }
}
