//! Metadata is used only after its checksum has been verified: what a
//! computed checksum was computed of, and the demand that it equals the stored
//! one where a structure is accepted.
use crate::exec::*;
use crate::names;
use crate::prog::*;
use crate::props::*;
use crate::rules::*;
use crate::solve::*;
use crate::state::*;
use crate::term::*;

const SB: &str = "ext4_view::superblock::Superblock::from_bytes";
const BGD: &str = "ext4_view::block_group::BlockGroupDescriptor::read";
const INODE: &str = "ext4_view::inode::Inode::read";
const ITEM: &str = "ext4_view::iters::extents::ToVisitItem";
const EXTENTS: &str = "<ext4_view::iters::extents::Extents as std::iter::Iterator>::next";
const BLOCK: &str = "ext4_view::dir_block::DirBlock::<'_>::read";
const DIRS: &[&str] = &["<ext4_view::ReadDir as std::iter::Iterator>::next", "ext4_view::dir_htree::get_dir_entry_via_htree"];
const INIT: i128 = 0xffff_ffff;

/// A part of what a checksum is computed of.
#[derive(Clone, Debug)]
enum Seg {
    Bytes(Cid, Lin, Lin),
    Const(Vec<u8>),
    Int(Lin, u8, bool),
    Zeros(Lin),
}
fn add(e: &Eng, st: &State, v: &mut Vec<Seg>, c: Cid, off: &Lin, len: &Lin, depth: u32) {
    if len.is_c() == Some(0) || st.holds(&ge(&Lin::c(0), len)) {
        return;
    }
    let (c, off) = e.resolve(st, c, off.clone(), len);
    let n = len.is_c();
    match cont(c) {
        Cont::Const(b) if n.is_some() && off.is_c().is_some() => {
            let (o, n) = (off.is_c().unwrap().max(0) as usize, n.unwrap() as usize);
            if o + n <= b.len() {
                return push(st, v, Seg::Const(b[o..o + n].to_vec()));
            }
        }
        Cont::Zero => {
            return push(st, v, match n {
                Some(n) if n <= 4096 => Seg::Const(vec![0; n as usize]),
                _ => Seg::Zeros(len.clone()),
            });
        }
        Cont::Int(l, w, be) if off.is_c() == Some(0) && n == Some(w as i128) => {
            if let Some(k) = l.is_c() {
                let mut b: Vec<u8> = (0..w).map(|i| (k >> (8 * i as u32)) as u8).collect();
                if be {
                    b.reverse();
                }
                return push(st, v, Seg::Const(b));
            }
            if let ([(a, 1)], 0) = (&l.t[..], l.k) {
                if let Atom::Load(c, o, lw, lbe) = atom(*a) {
                    if lw == w && lbe == be {
                        return add(e, st, v, c, &o, len, depth);
                    }
                }
            }
            return push(st, v, Seg::Int(l, w, be));
        }
        Cont::Patch { .. } if depth > 0 => {
            if let Some(p) = names::pieces(st, c, &off, len) {
                for (c, o, l) in p {
                    add(e, st, v, c, &o, &l, depth - 1);
                }
                return;
            }
        }
        _ => {}
    }
    push(st, v, Seg::Bytes(c, off, len.clone()));
}
fn push(st: &State, v: &mut Vec<Seg>, s: Seg) {
    match (v.last_mut(), &s) {
        (Some(Seg::Const(a)), Seg::Const(b)) => return a.extend(b),
        (Some(Seg::Bytes(c, o, l)), Seg::Bytes(c2, o2, l2)) if c == c2 && st.holds(&eq(&o.add(l), o2)) => {
            *l = l.add(l2);
            return;
        }
        _ => {}
    }
    v.push(s);
}
fn same(st: &State, a: &[Seg], b: &[Seg]) -> bool {
    let is = |x: &Lin, y: &Lin| x == y || st.holds(&eq(x, y));
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (Seg::Bytes(c, o, l), Seg::Bytes(c2, o2, l2)) => c == c2 && is(o, o2) && is(l, l2),
            (Seg::Const(x), Seg::Const(y)) => x == y,
            (Seg::Zeros(x), Seg::Zeros(y)) => is(x, y),
            (Seg::Int(l, w, be), Seg::Int(m, w2, be2)) => w == w2 && be == be2 && is(l, m),
            _ => false,
        })
}
fn text(v: &[Seg]) -> String {
    v.iter()
        .map(|s| match s {
            Seg::Bytes(c, o, l) => format!("{}[{}; {}]", show_cont(*c), show(o), show(l)),
            Seg::Const(b) if b.len() > 8 => format!("{} constant bytes", b.len()),
            Seg::Const(b) => format!("{b:?}"),
            Seg::Int(l, w, be) => format!("int{}{}({})", 8 * *w as u32, if *be { "be" } else { "" }, show(l)),
            Seg::Zeros(l) => format!("{} zeros", show(l)),
        })
        .collect::<Vec<_>>()
        .join(" + ")
}
/// Whether the contents come from a loop that writes them piece by piece.
pub fn looped(c: Cid) -> bool {
    FILLED.with(|x| x.borrow().contains(&c))
        || match cont(c) {
            Cont::Patch { base, src, .. } => looped(base) || looped(src),
            _ => false,
        }
}
thread_local! {
    /// Digests that are one of several.
    /// Contents written piece by piece in a loop.
    pub static FILLED: std::cell::RefCell<std::collections::HashSet<Cid>> = std::cell::RefCell::new(Default::default());
    pub static MADE: std::cell::RefCell<std::collections::HashSet<Id>> = std::cell::RefCell::new(Default::default());
}
/// Whether a number is a checksum being computed.
pub fn digest(l: &Lin) -> bool {
    matches!((&l.t[..], l.k), ([(a, 1)], 0) if matches!(atom(*a), Atom::Fun(t, ..) if t == "crcI" || t == "crcU"))
}
fn made_in_loop(l: &Lin) -> bool {
    matches!((&l.t[..], l.k), ([(a, 1)], 0) if MADE.with(|x| x.borrow().contains(a)))
}
/// What a digest started from, and what was added.
fn chain(e: &Eng, st: &State, d: &Lin) -> (Lin, Vec<Seg>) {
    let mut parts = vec![];
    let mut d = d.clone();
    while let ([(a, 1)], 0) = (&d.t[..], d.k) {
        let Atom::Fun(t, args, ..) = atom(*a) else { break };
        let (true, [Arg::L(p), Arg::C(c), Arg::L(o), Arg::L(l)]) = (t == "crcU", &args[..]) else { break };
        parts.push((*c, o.clone(), l.clone()));
        d = p.clone();
    }
    let mut v = vec![];
    for (c, o, l) in parts.iter().rev() {
        add(e, st, &mut v, *c, o, l, 8);
    }
    (d, v)
}
fn seeded(seed: &Lin) -> Lin {
    let r = match seed.is_c() {
        Some(k) => Lin::c((k as u32).reverse_bits() as i128),
        None => fun("rbit", vec![Arg::L(seed.clone())], Some(0), Some(umax(32))),
    };
    fun("crcI", vec![Arg::L(r)], Some(0), Some(umax(32)))
}
/// Whether a digest is one started from a seed.
fn starts(st: &State, d: &Lin, seed: &Lin) -> bool {
    let arg = |d: &Lin, tag: &str| -> Option<Lin> {
        let ([(a, 1)], 0) = (&d.t[..], d.k) else { return None };
        match atom(*a) {
            Atom::Fun(t, args, ..) if t == tag => match args.first() {
                Some(Arg::L(l)) => Some(l.clone()),
                _ => None,
            },
            _ => None,
        }
    };
    if *d == seeded(seed) {
        return true;
    }
    let Some(r) = arg(d, "crcI") else { return false };
    match (arg(&r, "rbit"), r.is_c()) {
        (Some(x), _) => st.holds(&eq(&x, seed)),
        (_, Some(k)) => st.holds(&eq(&Lin::c((k as u32).reverse_bits() as i128), seed)),
        _ => false,
    }
}
/// Checksums computed that the facts of a path speak of.
fn computed(st: &State) -> Vec<(Id, Lin)> {
    let mut out: Vec<(Id, Lin)> = vec![];
    let mut todo: Vec<Lin> = st.facts.0.iter().map(|f| f.lin().clone()).collect();
    let mut seen = std::collections::HashSet::new();
    while let Some(l) = todo.pop() {
        for (a, _) in &l.t {
            if !seen.insert(*a) {
                continue;
            }
            match atom(*a) {
                Atom::Fun(t, args, ..) if t == "crcF" => {
                    if let Some(Arg::L(d)) = args.first() {
                        out.push((*a, d.clone()));
                    }
                }
                Atom::Fun(_, args, ..) => todo.extend(args.iter().filter_map(|x| if let Arg::L(l) = x { Some(l.clone()) } else { None })),
                Atom::Div(l, _) => todo.push(l),
                _ => {}
            }
        }
    }
    out.sort();
    out.dedup();
    out
}
/// The demand: some checksum computed of exactly this equals the one stored.
fn demand(e: &Eng, what: &str, st: &State, start: &dyn Fn(&State, &Lin) -> bool, want: &[Seg], stored: &Lin, bits: u32) {
    let all = computed(st);
    let mut found = vec![];
    let mut vague = false;
    for (a, d) in &all {
        let (root, v) = chain(e, st, d);
        let right = start(st, &root) && same(st, &v, want);
        // A checksum made piece by piece in a loop: of what is not known.
        vague |= made_in_loop(&root);
        found.push(format!("of {} from {}{}", text(&v), show(&root), if right { " (not compared)" } else { "" }));
        if !right {
            continue;
        }
        let full = Lin::c(INIT).sub(&Lin::a(*a));
        let low = if bits == 32 { full } else { bitand(&full, &Lin::c((1 << bits) - 1), 32) };
        if decide(st, &eq(stored, &low)) {
            e.ob("C04", format!("{}: {what}", e.here()), String::new(), true, false);
            return;
        }
    }
    let imp = vague || st.imp || stored.imp();
    let mut t = format!("the {what} is accepted although its checksum (of {}) was not compared with the stored one; computed: {}", text(want), if found.is_empty() { "none".to_string() } else { found.join("; ") });
    if std::env::var("VF_FACTS").is_ok() {
        for f in st.facts.0.iter() {
            t.push_str(&format!("\n        {}", f.show()));
        }
    }
    e.ob("C04", format!("{}: {what}", e.here()), t, false, imp);
}
fn undecided(e: &Eng, what: &str, why: &str) {
    e.ob("C04", format!("{}: {what}", e.here()), why.to_string(), false, true);
}
/// A field of a struct reachable from a value.
fn field(e: &Eng, st: &State, v: &V, ty: usize, of: &str, name: &str, depth: u32) -> Option<(V, usize)> {
    if depth == 0 {
        return None;
    }
    let mut s = st.clone();
    match (e.ty(ty).clone(), v) {
        (TyK::Ref(t, _), V::Ref(p)) => {
            let x = e.read(&mut s, p);
            field(e, st, &x, t, of, name, depth - 1)
        }
        (TyK::Ref(t, _), x) => field(e, st, x, t, of, name, depth - 1),
        (TyK::Adt { targs, .. }, V::Shared(c)) if !targs.is_empty() => {
            let x = s.get(*c);
            field(e, st, &x, targs[0], of, name, depth - 1)
        }
        (TyK::Adt { kind: AdtK::Struct, vars, path, .. }, x) if vars.len() == 1 => {
            let here = path.rsplit("::").next() == Some(of) && path.starts_with("ext4_view");
            let fs = &vars[0].fields;
            let vals: Vec<V> = match x {
                V::Agg(a) if a.len() == fs.len() => a.to_vec(),
                x if fs.len() == 1 => vec![x.clone()],
                _ => return None,
            };
            for (t, y) in fs.iter().zip(&vals) {
                if here {
                    if t.0 == name {
                        return Some((y.clone(), t.1));
                    }
                } else if let Some(r) = field(e, st, y, t.1, of, name, depth - 1) {
                    return Some(r);
                }
            }
            None
        }
        _ => None,
    }
}
fn arg(e: &Eng, st: &State, f: usize, args: &[V], of: &str, name: &str) -> Option<V> {
    args.iter().zip(&e.p.fns[f].sig.0).find_map(|(a, t)| field(e, st, a, *t, of, name, 8)).map(|x| x.0)
}
fn num(v: &V) -> Option<Lin> {
    match v {
        V::Int(l) => Some(l.clone()),
        V::Bool(_) => None,
        V::Agg(a) if a.len() == 1 => num(&a[0]),
        _ => None,
    }
}
/// The filesystem has metadata checksums.
pub fn on_enter(e: &Eng, st: &mut State) {
    if e.on("C04") {
        st.assume(&eq(&bit(&dev(1024 + 0x64, 4), 10), &Lin::c(1)));
        if e.on("C04s") {
            st.assume(&eq(&bit(&dev(1024 + 0x60, 4), 13), &Lin::c(e.on("C04s1") as i128)));
        }
    }
}
/// Functions whose exits matter wherever they are called.
pub fn watched(e: &Eng, f: usize) -> bool {
    e.on("C04") && [SB, BGD].contains(&e.p.fns[f].name.as_str())
}
fn within(e: &Eng, names: &[&str]) -> bool {
    e.stack.borrow().iter().any(|x| names.contains(&e.p.fns[x.0].name.as_str()))
}
/// Whether the paths of a function are followed one by one.
pub fn apart(e: &Eng, f: usize) -> bool {
    e.on("C04") && e.p.fns[f].krate == "ext4_view" && within(e, &[BLOCK, INODE]) || (e.on("C18") || e.on("C19")) && *e.root.borrow() == crate::cut::READ
}
fn last_read(e: &Eng, s: &State) -> Option<(Cid, Lin, Lin)> {
    match s.get(G_RD) {
        V::Agg(a) => match a.get(2) {
            Some(V::Buf { c, off, len }) => Some((*c, off.clone(), len.clone())),
            _ => None,
        },
        _ => None,
    }
}
pub fn on_exits(e: &Eng, f: usize, args: &[V], out: &[(State, V)]) {
    if !e.on("C04") || e.prefix.get() {
        return;
    }
    let name = e.p.fns[f].name.as_str();
    if ![SB, BGD, INODE, BLOCK].contains(&name) {
        return;
    }
    for (st, v) in out {
        for (s, r) in results(e, st, v, e.p.fns[f].sig.1) {
            let Res::Val(v, ty) = r else { continue };
            match name {
                SB => superblock(e, &s, args, &v, ty),
                BGD => descriptor(e, &s, f, args),
                INODE => inode(e, &s, f, args, &v, ty),
                BLOCK => block(e, &s, f, args),
                _ => {}
            }
        }
    }
}
fn superblock(e: &Eng, s: &State, args: &[V], v: &V, ty: usize) {
    let mut t = s.clone();
    let Some((c, o, _)) = args.iter().find_map(|a| e.bytes(&mut t, a)) else { return undecided(e, "superblock", "the bytes are not tracked") };
    let mut s = s.clone();
    s.assume(&eq(&bit(&e.load(&s, c, &o.addk(0x64), 4, false), 10), &Lin::c(1)));
    let mut want = vec![];
    add(e, &s, &mut want, c, &o, &Lin::c(0x3fc), 8);
    let stored = e.load(&s, c, &o.addk(0x3fc), 4, false);
    demand(e, "superblock", &s, &|s, d| starts(s, d, &Lin::c(INIT)), &want, &stored, 32);
    // The seed of the other checksums (analysed apart for both cases).
    if !e.on("C04s") {
        return;
    }
    let Some(seed) = field(e, &s, v, ty, "Superblock", "checksum_seed", 8).and_then(|x| num(&x.0)) else { return undecided(e, "seed", "not tracked") };
    let bit = bit(&e.load(&s, c, &o.addk(0x60), 4, false), 13);
    let mut given = s.clone();
    if given.assume(&eq(&bit, &Lin::c(1))) {
        let want = e.load(&given, c, &o.addk(0x270), 4, false);
        check(e, "C04", "stored seed", &given, &eq(&seed, &want), "the checksum seed is not the one stored in the superblock".into());
    }
    let mut made = s;
    if made.assume(&eq(&bit, &Lin::c(0))) {
        let uuid = names_uuid(e, &made, c, &o);
        let (mut ok, mut vague) = (false, false);
        for (a, d) in from_terms(&seed) {
            let (root, v) = chain(e, &made, &d);
            vague |= made_in_loop(&root);
            ok |= starts(&made, &root, &Lin::c(INIT)) && same(&made, &v, &uuid) && decide(&made, &eq(&seed, &Lin::c(INIT).sub(&Lin::a(a))));
        }
        e.ob("C04", format!("{}: seed of the uuid", e.here()), if ok { String::new() } else { format!("the checksum seed is {}, not the checksum of the UUID", show(&seed)) }, ok, vague || made.imp || seed.imp() || from_terms(&seed).is_empty() && seed.is_c().is_none());
    }
}
fn names_uuid(e: &Eng, s: &State, c: Cid, o: &Lin) -> Vec<Seg> {
    let mut v = vec![];
    add(e, s, &mut v, c, &o.addk(0x68), &Lin::c(16), 8);
    v
}
fn from_terms(l: &Lin) -> Vec<(Id, Lin)> {
    l.t.iter()
        .filter_map(|(a, _)| match atom(*a) {
            Atom::Fun(t, args, ..) if t == "crcF" => match args.first() {
                Some(Arg::L(d)) => Some((*a, d.clone())),
                _ => None,
            },
            _ => None,
        })
        .collect()
}
fn descriptor(e: &Eng, s: &State, f: usize, args: &[V]) {
    let what = "group descriptor";
    let Some((c, o, n)) = last_read(e, s) else { return undecided(e, what, "its bytes are not tracked") };
    let Some(seed) = arg(e, s, f, args, "Superblock", "checksum_seed").and_then(|v| num(&v)) else { return undecided(e, what, "the seed is not tracked") };
    let Some(index) = args.iter().zip(&e.p.fns[f].sig.0).find(|(_, t)| e.p.tys[**t].name == "u32").and_then(|(a, _)| num(a)) else { return undecided(e, what, "the index is not tracked") };
    let mut want = vec![];
    add(e, s, &mut want, mkc(Cont::Int(index, 4, false)), &Lin::c(0), &Lin::c(4), 1);
    add(e, s, &mut want, c, &o, &Lin::c(0x1e), 8);
    add(e, s, &mut want, mkc(Cont::Zero), &Lin::c(0), &Lin::c(2), 1);
    add(e, s, &mut want, c, &o.addk(0x20), &n.addk(-0x20), 8);
    let stored = e.load(s, c, &o.addk(0x1e), 2, false);
    demand(e, what, s, &|s, d| starts(s, d, &seed), &want, &stored, 16);
}
fn inode(e: &Eng, s: &State, f: usize, args: &[V], v: &V, ty: usize) {
    let what = "inode";
    let Some((c, o, n)) = last_read(e, s) else { return undecided(e, what, "its bytes are not tracked") };
    let Some(seed) = arg(e, s, f, args, "Superblock", "checksum_seed").and_then(|v| num(&v)) else { return undecided(e, what, "the seed is not tracked") };
    let Some(index) = args.iter().zip(&e.p.fns[f].sig.0).rev().find_map(|(a, _)| num(a)) else { return undecided(e, what, "the number is not tracked") };
    let mut base = vec![];
    add(e, s, &mut base, mkc(Cont::Int(index, 4, false)), &Lin::c(0), &Lin::c(4), 1);
    add(e, s, &mut base, c, &o.addk(0x64), &Lin::c(4), 8);
    let mut want = base.clone();
    let mut data = |o: &Lin, l: &Lin, z: bool| {
        let c = if z { mkc(Cont::Zero) } else { c };
        add(e, s, &mut want, c, o, l, 8);
    };
    data(&o, &Lin::c(0x7c), false);
    data(&Lin::c(0), &Lin::c(2), true);
    data(&o.addk(0x7e), &Lin::c(4), false);
    data(&Lin::c(0), &Lin::c(2), true);
    data(&o.addk(0x84), &n.addk(-0x84), false);
    let stored = e.load(s, c, &o.addk(0x7c), 2, false).add(&e.load(s, c, &o.addk(0x82), 2, false).scale(1 << 16));
    demand(e, what, s, &|s, d| starts(s, d, &seed), &want, &stored, 32);
    // What the checksums of its blocks start from.
    match field(e, s, v, ty, "Inode", "checksum_base", 8).and_then(|x| num(&x.0)) {
        Some(d) => {
            let (root, v) = chain(e, s, &d);
            let ok = starts(s, &root, &seed) && same(s, &v, &base);
            let vague = made_in_loop(&root);
            e.ob("C04", format!("{}: base", e.here()), if ok { String::new() } else { format!("the checksums of an inode's blocks start from {} and {}, not from the seed and {}", show(&root), text(&v), text(&base)) }, ok, vague || s.imp || d.imp());
        }
        None => undecided(e, "base", "not tracked"),
    }
}
/// An unknown digest (the one of the inode), to which nothing was added.
fn opaque(d: &Lin) -> bool {
    matches!((&d.t[..], d.k), ([(a, 1)], 0) if !matches!(atom(*a), Atom::Fun(t, ..) if t == "crcI" || t == "crcF" || t == "crcU"))
}
/// An element is added to a vector: a node to those to visit.
pub fn on_push(e: &Eng, st: &State, f: usize) {
    if e.on("C04") && !e.prefix.get() && e.p.fns[f].sig.0.get(1).is_some_and(|t| e.p.tys[*t].name == ITEM) && within(e, &[EXTENTS]) {
        node(e, st);
    }
}
/// Whether a length is that of a node whose header says how many entries fit.
fn entries(l: &Lin) -> Option<bool> {
    let ([(a, 12)], 12) = (&l.t[..], l.k) else { return None };
    match atom(*a) {
        Atom::Load(_, o, 2, false) => Some(o.is_c() == Some(4)),
        _ => None,
    }
}
fn node(e: &Eng, s: &State) {
    let what = "extent node";
    let Some((c, o, _)) = last_read(e, s) else { return undecided(e, what, "its bytes are not tracked") };
    // The header is read on its own to learn the size: the same bytes of the
    // image, so the number of entries it gives is as good.
    for (_, d) in computed(s) {
        let (root, v) = chain(e, s, &d);
        if let ([Seg::Bytes(c2, o2, l)], true) = (&v[..], opaque(&root)) {
            if *c2 == c && s.holds(&eq(o2, &o)) {
                if let Some(k) = entries(l) {
                    let full = Lin::c(INIT).sub(&fun("crcF", vec![Arg::L(d.clone())], Some(0), Some(umax(32))));
                    if k && decide(s, &eq(&e.load(s, c, &o.add(l), 4, false), &full)) {
                        return e.ob("C04", format!("{}: {what}", e.here()), String::new(), true, false);
                    }
                }
            }
        }
    }
    let n = e.load(s, c, &o.addk(4), 2, false).addk(1).scale(12);
    let mut want = vec![];
    add(e, s, &mut want, c, &o, &n, 8);
    let stored = e.load(s, c, &o.add(&n), 4, false);
    demand(e, what, s, &|_, d| opaque(d), &want, &stored, 32);
}
fn block(e: &Eng, s: &State, f: usize, args: &[V]) {
    let what = "directory block";
    let Some((c, o, n)) = last_read(e, s) else { return undecided(e, what, "its bytes are not tracked") };
    let flag = |name: &str| match arg(e, s, f, args, "DirBlock", name) {
        Some(V::Bool(c)) => Some(c),
        Some(V::Int(l)) => Some(eq(&l, &Lin::c(1))),
        _ => None,
    };
    let (Some(first), Some(htree)) = (flag("is_first"), flag("has_htree")) else { return undecided(e, what, "its kind is not tracked") };
    let rec = e.load(s, c, &o.addk(4), 2, false);
    let whole = eq(&rec, &n);
    for (kind, k, limit) in [
        ("leaf", htree.not(), None),
        ("leaf", Cond::and(vec![htree.clone(), first.not(), whole.not()]), None),
        ("root", Cond::and(vec![htree.clone(), first.clone()]), Some(0x20)),
        ("index", Cond::and(vec![htree, first.not(), whole]), Some(8)),
    ] {
        let mut s = s.clone();
        // Two spellings of the block size that differ and are equal.
        if !s.assume(&k) || s.facts.0.iter().any(|f| matches!(f, Fact::Ne(l) if s.holds(&eq(l, &Lin::c(0))))) {
            continue;
        }
        let mut want = vec![];
        match limit {
            None => add(e, &s, &mut want, c, &o, &n.addk(-12), 8),
            Some(l) => {
                let count = e.load(&s, c, &o.addk(l + 2), 2, false);
                add(e, &s, &mut want, c, &o, &count.scale(8).addk(l), 8);
                add(e, &s, &mut want, c, &o.add(&n).addk(-8), &Lin::c(4), 8);
                add(e, &s, &mut want, mkc(Cont::Zero), &Lin::c(0), &Lin::c(4), 1);
            }
        }
        let stored = e.load(&s, c, &o.add(&n).addk(-4), 4, false);
        demand(e, &format!("{what} ({kind})"), &s, &|_, d| opaque(d), &want, &stored, 32);
    }
}
/// A unit is called: directory blocks are read by the function that verifies them.
pub fn on_unit(e: &Eng, st: &State, f: usize) {
    if !e.on("C04") || e.p.fns[f].name != crate::cut::READ || !within(e, DIRS) {
        return;
    }
    let there = crate::cut::find(e, BLOCK).is_some();
    if within(e, &[BLOCK]) {
        e.ob("C04", format!("{}: directory block", e.here()), String::new(), true, false);
    } else {
        e.ob("C04", format!("{}: directory block", e.here()), "a block of a directory is read without verifying its checksum".into(), false, st.imp || !there);
    }
}
/// A struct value is made.
pub fn on_wrap(e: &Eng, st: &State, ty: usize, vs: &[V]) {
    if !e.on("C04") || e.prefix.get() {
        return;
    }
    let TyK::Adt { vars, path, .. } = e.ty(ty) else { return };
    if !path.starts_with("ext4_view::") || path.ends_with("::Inode") || path.ends_with("::Checksum") || vars.len() != 1 || vars[0].fields.len() != vs.len() {
        return;
    }
    for (t, v) in vars[0].fields.iter().zip(vs) {
        if matches!(e.ty(t.1), TyK::Adt { path, .. } if path == "ext4_view::checksum::Checksum") {
            let Some(d) = num(v) else {
                e.ob("C04", format!("{}: base handed on", e.here()), String::new(), true, false);
                continue;
            };
            e.ob("C04", format!("{}: base handed on", e.here()), if opaque(&d) { String::new() } else { format!("the checksum that those of a {} start from is not the inode's: {}", path.rsplit("::").next().unwrap_or(""), show(&d)) }, opaque(&d), st.imp || d.imp());
        }
    }
}
