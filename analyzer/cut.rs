//! Analysis in units: an operation of the library that reads the filesystem
//! is analysed on its own, from arbitrary arguments, and where another unit
//! calls it, its outcome is anything such an operation can produce on an
//! adversarial image: any error, or any value of its result type.
use crate::drive;
use crate::exec::*;
use crate::prog::*;
use crate::solve::*;
use crate::state::*;
use crate::term::*;
use std::rc::Rc;

/// Operations that are units of their own (by path; those that do not exist
/// are ignored, what is not listed is analysed as part of its callers).
pub const READ: &str = "ext4_view::Ext4::read_from_block";
pub const UNITS: &[&str] = &[
    "ext4_view::Ext4::read_from_block",
    "ext4_view::inode::Inode::read",
    "ext4_view::journal::Journal::load",
    "ext4_view::iters::extents::Extents::new",
    "<ext4_view::iters::extents::Extents as std::iter::Iterator>::next",
    "ext4_view::iters::file_blocks::extents_blocks::ExtentsBlocks::new",
    "<ext4_view::iters::file_blocks::extents_blocks::ExtentsBlocks as std::iter::Iterator>::next",
    "ext4_view::iters::file_blocks::block_map::BlockMap::new",
    "<ext4_view::iters::file_blocks::block_map::BlockMap as std::iter::Iterator>::next",
    "ext4_view::iters::file_blocks::FileBlocks::new",
    "<ext4_view::iters::file_blocks::FileBlocks as std::iter::Iterator>::next",
    "ext4_view::ReadDir::new",
    "<ext4_view::ReadDir as std::iter::Iterator>::next",
    "ext4_view::dir_block::DirBlock::<'_>::read",
    "ext4_view::DirEntry::from_bytes",
    "ext4_view::dir_htree::get_dir_entry_via_htree",
    "ext4_view::dir::get_dir_entry_inode_by_name",
    "ext4_view::inode::Inode::symlink_target",
    "ext4_view::Ext4::read_inode_file",
    "ext4_view::resolve::resolve_path",
    "ext4_view::File::open_inode",
];
pub fn setup(e: &Eng) {
    let mut c = e.cuts.borrow_mut();
    for (i, f) in e.p.fns.iter().enumerate() {
        // Small units are analysed in place where the whole operation matters.
        let whole = (e.on("C10") || e.on("C12")) && ["ext4_view::File::open_inode", "ext4_view::inode::Inode::symlink_target", "ext4_view::ReadDir::new"].contains(&f.name.as_str());
        let whole = whole || e.on("C14") && f.name == "<ext4_view::ReadDir as std::iter::Iterator>::next";
        if UNITS.contains(&f.name.as_str()) && !whole {
            c.insert(i);
        }
    }
}
pub fn find(e: &Eng, name: &str) -> Option<usize> {
    e.p.fns.iter().position(|f| f.name == name && f.body.is_some())
}
pub fn is_unit(e: &Eng, f: usize) -> bool {
    e.cuts.borrow().contains(&f)
}
pub fn is_cut(e: &Eng, f: usize) -> bool {
    e.cuts.borrow().contains(&f) && !e.stack.borrow().is_empty() && !e.uncut.borrow().contains(&f)
}
/// Outcomes of a unit called by another.
pub fn outcome(e: &Eng, f: usize, args: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let fun = &e.p.fns[f];
    if e.prefix.get() {
        return vec![];
    }
    crate::rules::on_unit(e, &mut st, f, &args);
    precond(e, f, &args, &st, ctx);
    st.set(G_PRE, V::int(0));
    for (i, a) in args.iter().enumerate() {
        let Some(t) = fun.sig.0.get(i) else { continue };
        let TyK::Ref(to, true) = e.ty(*t) else { continue };
        match a {
            V::MSlice(p, o, l) => {
                let c = mkc(Cont::Fresh(hash(&(ctx, i, "out")), false));
                e.store(&mut st, p, o, l, c, &Lin::c(0));
            }
            V::Ref(p) => {
                let v = match e.read(&mut st, p) {
                    V::Top(t, _, _) => V::Top(t, hash(&(ctx, i, "out")), false),
                    V::Buf { .. } => {
                        let c = mkc(Cont::Fresh(hash(&(ctx, i, "out")), false));
                        V::Buf { c, off: Lin::c(0), len: sym(hash(&(ctx, i, "outlen")), Some(0), Some(umax(63))) }
                    }
                    _ => e.sym_d(&mut st, *to, hash(&(ctx, i, "out")), 0, false),
                };
                e.write(&mut st, p, v);
            }
            _ => {}
        }
    }
    let out = results(e, st, dty, hash(&(ctx, "cut")));
    crate::props::on_outcome(e, f, &args, out, dty)
}
/// A unit's assertions before its first call of another unit are its
/// precondition: assumed where it is analysed on its own, shown here.
fn precond(e: &Eng, f: usize, args: &[V], st: &State, ctx: u64) {
    let Some(body) = &e.p.fns[f].body else { return };
    if !asserts(e, f) {
        return;
    }
    e.prefix.set(true);
    e.exec_fn(f, body, args.to_vec(), st.clone(), hash(&(ctx, "prefix")));
    e.prefix.set(false);
}
fn asserts(e: &Eng, f: usize) -> bool {
    let Some(body) = &e.p.fns[f].body else { return false };
    body.blocks.iter().any(|b| match &b.t {
        Tm::Call { f: Callee::Fn(g), .. } => e.p.fns[*g].name.contains("panicking::"),
        _ => false,
    })
}
fn opaque(e: &Eng, ty: usize) -> bool {
    let n = &e.p.tys[ty].name;
    n.starts_with("ext4_view::iters::") || n == "ext4_view::ReadDir"
}
fn value(e: &Eng, st: &mut State, ty: usize, key: u64) -> V {
    if opaque(e, ty) {
        return V::Top(ty, key, false);
    }
    e.sym_v(st, ty, key)
}
fn results(e: &Eng, st: State, ty: usize, key: u64) -> Out {
    let TyK::Adt { path, targs, .. } = e.ty(ty) else {
        let mut st = st;
        let v = value(e, &mut st, ty, key);
        return vec![(st, v)];
    };
    match path.as_str() {
        "std::option::Option" => {
            let is_res = matches!(e.ty(targs[0]), TyK::Adt { path, .. } if path == "std::result::Result");
            if is_res {
                let mut out = vec![(st.clone(), e.none(ty))];
                for (s, v) in results(e, st, targs[0], hash(&(key, "some"))) {
                    out.push((s, e.some(ty, v)));
                }
                return out;
            }
            let mut st = st;
            let v = e.sym_v(&mut st, ty, key);
            vec![(st, v)]
        }
        "std::result::Result" => {
            let mut out = vec![];
            let mut s = st.clone();
            let v = value(e, &mut s, targs[0], hash(&(key, "ok")));
            out.push((s, e.ok(ty, v)));
            if e.p.tys[targs[1]].name == "ext4_view::Ext4Error" {
                let mut s = st.clone();
                let v = e.sym_v(&mut s, targs[1], hash(&(key, "err")));
                let io = e.variant(targs[1], "Io");
                if let V::Enum(en) = &v {
                    let mut en = (**en).clone();
                    if let Some(p) = en.pay.get_mut(&io) {
                        p.facts = vec![Fact::Ge(Lin::c(-1))];
                    }
                    if s.facts.assume(&Fact::Ne(en.tag.addk(-(io as i128)))) {
                        out.push((s, e.err(ty, V::Enum(Rc::new(en)))));
                    }
                }
                let mut s = st;
                s.set(G_IO, V::int(1));
                let v = e.en(targs[1], io, vec![V::Tok("ioerr", 0)]);
                out.push((s, e.err(ty, v)));
            } else {
                let mut s = st;
                let v = e.sym_v(&mut s, targs[1], hash(&(key, "err")));
                out.push((s, e.err(ty, v)));
            }
            out
        }
        _ => {
            let mut st = st;
            let v = value(e, &mut st, ty, key);
            vec![(st, v)]
        }
    }
}
/// Runs a function from arbitrary arguments on a loaded filesystem.
pub fn run_fn(e: &Eng, f: usize, base: &State) -> Out {
    let mut st = base.clone();
    *e.root.borrow_mut() = e.p.fns[f].name.clone();
    st.set(G_IO, V::int(0));
    st.set(G_PRE, V::int((is_unit(e, f) && asserts(e, f)) as i128));
    let fs = st.get(drive::FS);
    let a = drive::args(e, &mut st, f, &[("ext4_view::Ext4", fs)]);
    e.call(f, a, st, hash(&("unit", f)), e.p.fns[f].sig.1)
}
/// A type's constructor, then its iteration function any number of times.
pub fn run_class(e: &Eng, new: usize, looped: usize, base: &State) -> usize {
    let out = run_fn(e, new, base);
    let ty = e.p.fns[new].sig.1;
    let is_res = matches!(e.ty(ty), TyK::Adt { path, .. } if path == "std::result::Result");
    let ok = if is_res { drive::variant(e, out, ty, "Ok") } else { out };
    let n = ok.len();
    for (i, (mut s, v)) in ok.into_iter().enumerate() {
        s.set(G_IO, V::int(0));
        s.set(G_PRE, V::int(0));
        let body = e.p.fns[looped].body.as_ref().unwrap();
        e.exec_fn(looped, body, vec![v], s, hash(&("class", i)));
    }
    n
}
