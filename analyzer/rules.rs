//! Obligations checked during the interpretation.
use crate::exec::*;
use crate::prog::*;
use crate::solve::*;
use crate::state::*;
use crate::term::*;

#[derive(Default, Clone)]
pub struct Cfg {
    pub verbose: bool,
    pub panics: bool,
}
/// Effort of the solver for obligations.
pub fn decide(st: &State, c: &Cond) -> bool {
    st.holds(c) || st.holds_e(c, 1)
}
pub fn cond_imp(c: &Cond) -> bool {
    let mut v = vec![];
    c.lins(&mut v);
    v.iter().any(|l| l.imp())
}
pub fn panic_ob(e: &Eng, st: &State, c: &Cond, kind: &str, what: &str) {
    if e.prefix.get() {
        return;
    }
    let ok = decide(st, c);
    // A state that hinges on something not tracked may not exist at all.
    let hinges = !ok && matches!(c, Cond::F) && st.facts.0.iter().any(|f| cond_imp(&Cond::fact(f.clone())));
    let imp = st.imp || hinges || cond_imp(c) || e.in_std();
    let key = format!("{}: {}", e.here(), kind);
    let mut text = if ok && !e.cfg.verbose { String::new() } else { format!("{}: {} not shown ({})", kind, c.show(), what) };
    if !ok && std::env::var("VF_FACTS").is_ok() {
        for f in st.facts.0.iter() {
            text.push_str(&format!("\n        {}", f.show()));
        }
    }
    e.ob("panic", key, text, ok, imp);
}
pub fn panic_call(e: &Eng, st: &mut State, f: usize, _a: &[V]) {
    if !e.prefix.get() && matches!(st.get(G_PRE), V::Int(l) if l.is_c() == Some(1)) {
        return;
    }
    // Reaching it is the violation: the state must be contradictory.
    let ok = crate::solve::refute(&st.facts, &[], 1);
    let key = format!("{}: {}", e.here(), e.p.fns[f].path.rsplit("::").next().unwrap_or("panic"));
    let mut text = format!("call of {}", e.p.fns[f].name);
    if !ok && std::env::var("VF_FACTS").is_ok() {
        for f in st.facts.0.iter() {
            text.push_str(&format!("\n        {}", f.show()));
        }
    }
    e.ob("panic", key, text, ok, st.imp || e.in_std());
}

// ---- ghosts ---------------------------------------------------------------------

/// (key, result) of the last lookup in the journal's map.
pub const G_MAP: Cell = 0x12;
/// Number of lookups in the journal's map.
pub const G_MAPN: Cell = 0x13;
/// Whether the block last looked up is the first one.
pub const G_ZERO: Cell = 0x14;
/// Ghost cells, which keep their names everywhere.
pub const GHOSTS: &[Cell] = &[G_IO, G_PRE, G_MAP, G_MAPN, G_ZERO, crate::props::G_RES, crate::props::G_FT, crate::props::G_ENC, crate::props::G_LINKS, crate::props::G_OBJ, crate::props::G_FOLLOW, crate::props::G_NAME, crate::props::G_RD, crate::props::G_RDN, crate::props::G_FB, crate::props::G_FIN, crate::props::G_LEN, crate::props::G_PEND];
pub fn ghost(c: Cell) -> bool {
    GHOSTS.contains(&c)
}
/// States that differ in one of these are not joined.
pub const SPLIT: &[Cell] = &[G_IO, G_MAPN, G_ZERO, crate::props::G_RES, crate::props::G_FT, crate::props::G_RDN, crate::props::G_FIN, crate::props::G_PEND];

pub fn reset(st: &mut State) {
    st.set(G_IO, V::int(0));
    st.set(G_MAPN, V::int(0));
    st.del(G_MAP);
    st.del(G_ZERO);
}
pub fn gint(st: &State, c: Cell) -> Option<i128> {
    match st.get(c) {
        V::Int(l) => l.is_c(),
        _ => None,
    }
}

// ---- looking at values ----------------------------------------------------------

/// The cases of an enum value: state, variant, payload.
pub fn cases(e: &Eng, st: &State, v: &V, ty: usize) -> Vec<(State, String, Vec<V>)> {
    let TyK::Adt { vars, .. } = e.ty(ty) else { return vec![] };
    let mut out = vec![];
    let V::Enum(en) = v else {
        // Nothing known: no case can be told apart.
        for x in vars {
            let mut s = st.clone();
            s.imp = true;
            let vals = x.fields.iter().enumerate().map(|(i, f)| e.sym_d(&mut s, f.1, hash(&("case", i)), 0, true)).collect();
            out.push((s, x.name.clone(), vals));
        }
        return out;
    };
    for (k, x) in vars.iter().enumerate() {
        let mut s = st.clone();
        if !s.facts.assume(&Fact::Eq(en.tag.addk(-(k as i128)))) {
            continue;
        }
        let cell = hash(&"cases");
        s.set(cell, v.clone());
        if !e.refine(&mut s, &Place::cell(cell), k) {
            continue;
        }
        let vals = x.fields.iter().enumerate().map(|(i, _)| e.read(&mut s, &Place { cell, proj: vec![P::V(k), P::F(i)] })).collect();
        s.del(cell);
        out.push((s, x.name.clone(), vals));
    }
    out
}
pub fn adt<'b>(e: &'b Eng, ty: usize) -> &'b str {
    match e.ty(ty) {
        TyK::Adt { path, .. } => path,
        _ => "",
    }
}
pub fn targ(e: &Eng, ty: usize, i: usize) -> usize {
    match e.ty(ty) {
        TyK::Adt { targs, .. } => targs[i],
        _ => 0,
    }
}
/// What an operation's result comes down to.
#[derive(Clone, Debug)]
pub enum Res {
    /// A value, with its type.
    Val(V, usize),
    /// The end of an iteration.
    End,
    /// A library error: variant, payload, and whether it was made here.
    Err(String, Vec<V>, bool),
}
/// Splits a result (`Option<Result<T, Ext4Error>>`, `Result<T, Ext4Error>`,
/// anything else) into its cases.
pub fn results(e: &Eng, st: &State, v: &V, ty: usize) -> Vec<(State, Res)> {
    match adt(e, ty) {
        "std::option::Option" if adt(e, targ(e, ty, 0)) == "std::result::Result" => {
            let mut out = vec![];
            for (s, k, p) in cases(e, st, v, ty) {
                if k == "None" {
                    out.push((s, Res::End));
                } else {
                    out.extend(results(e, &s, &p[0], targ(e, ty, 0)));
                }
            }
            out
        }
        "std::result::Result" if adt(e, targ(e, ty, 1)) == "ext4_view::Ext4Error" => {
            let mut out = vec![];
            for (s, k, p) in cases(e, st, v, ty) {
                if k == "Ok" {
                    out.push((s, Res::Val(p[0].clone(), targ(e, ty, 0))));
                } else {
                    let own = matches!(&p[0], V::Enum(x) if x.tag.is_c().is_some());
                    for (s, k, q) in cases(e, &s, &p[0], targ(e, ty, 1)) {
                        out.push((s, Res::Err(k, q, own)));
                    }
                }
            }
            out
        }
        _ => vec![(st.clone(), Res::Val(v.clone(), ty))],
    }
}
pub fn fallible(e: &Eng, ty: usize) -> bool {
    match adt(e, ty) {
        "std::option::Option" => fallible(e, targ(e, ty, 0)),
        "std::result::Result" => adt(e, targ(e, ty, 1)) == "ext4_view::Ext4Error",
        _ => false,
    }
}
fn imp_of(st: &State, ls: &[&Lin]) -> bool {
    st.imp || ls.iter().any(|l| l.imp())
}
pub fn check(e: &Eng, rule: &'static str, what: &str, st: &State, c: &Cond, text: String) {
    let ok = decide(st, c);
    let imp = st.imp || cond_imp(c);
    let mut text = if ok { String::new() } else { format!("{} ({} not shown)", text, c.show()) };
    if !ok && std::env::var("VF_FACTS").is_ok() {
        for f in st.facts.0.iter() {
            text.push_str(&format!("\n        {}", f.show()));
        }
    }
    e.ob(rule, format!("{}: {}", e.here(), what), text, ok, imp);
}
pub fn eq(a: &Lin, b: &Lin) -> Cond {
    Cond::fact(Fact::Eq(a.sub(b)))
}
pub fn ge(a: &Lin, b: &Lin) -> Cond {
    Cond::fact(Fact::Ge(a.sub(b)))
}

// ---- what the on-disk format says ------------------------------------------------

pub fn dev(off: i128, n: u8) -> Lin {
    load_raw(mkc(Cont::Dev), &Lin::c(off), n, false)
}
/// Block size and number of blocks of the filesystem on the device.
pub fn block_size() -> Lin {
    pow2(&dev(1024 + 0x18, 4)).scale(1024)
}
pub fn blocks() -> Lin {
    dev(1024 + 4, 4).add(&dev(1024 + 0x150, 4).scale(1 << 32))
}

// ---- events ----------------------------------------------------------------------

/// Before a device read; false stops the path.
pub fn on_read(e: &Eng, st: &mut State, start: &Lin, len: &Lin) -> bool {
    if !e.loaded.get() || e.prefix.get() {
        return true;
    }
    let bs = block_size();
    if e.on("C19") {
        let one = gint(st, G_MAPN) == Some(1);
        e.ob("C19", format!("{}: read of a mapped block", e.here()), if one { String::new() } else { "the device is read at a place that was not looked up in the journal exactly once".into() }, one, st.imp);
        if let Some((_, m)) = mapping(st) {
            check(e, "C19", "start of read", st, &eq(start, &mul(&bs, &m)), "the device is read at another place than the mapped block".into());
        }
    }
    check(e, "C03", "end of read", st, &ge(&mul(&bs, &blocks()), &start.add(len)), "a device read ends past the end of the filesystem".into());
    for (l, w) in [(start, "start"), (len, "length")] {
        let ok = multiple(l, &bs);
        e.ob("C03", format!("{}: {} of read", e.here(), w), if ok { String::new() } else { format!("the {} of a device read ({}) is not a multiple of the block size", w, show(l)) }, ok, imp_of(st, &[l]));
    }
    true
}
pub fn on_alloc(_e: &Eng, _st: &mut State, _n: &Lin) {}
pub fn on_insert(_e: &Eng, _st: &mut State, _k: &V, _v: &V) {}
/// A lookup in the map of blocks the journal replaces.
pub fn on_map(e: &Eng, mut st: State, k: &Lin, v: Option<&V>) -> Vec<State> {
    if !e.loaded.get() || e.prefix.get() {
        return vec![st];
    }
    let n = gint(&st, G_MAPN).unwrap_or(2);
    st.set(G_MAPN, V::int((n + 1).min(2)));
    let v = match v {
        Some(V::Int(l)) => l.clone(),
        Some(_) => sym_imp(hash(&(&k, "mapped")), Some(0), Some(umax(64))),
        None => k.clone(),
    };
    st.set(G_MAP, V::agg(vec![V::Int(k.clone()), V::Int(v.clone())]));
    if !e.on("C03") {
        return vec![st];
    }
    // The first block is a case of its own.
    let mut out = vec![];
    for (z, c) in [(0, Cond::fact(Fact::Eq(v.clone()))), (1, ge(&v, &Lin::c(1)))] {
        let mut s = st.clone();
        if s.assume(&c) {
            s.set(G_ZERO, V::int(z));
            out.push(s);
        }
    }
    out
}
fn mapping(st: &State) -> Option<(Lin, Lin)> {
    match st.get(G_MAP) {
        V::Agg(v) => match (&v[0], &v[1]) {
            (V::Int(k), V::Int(m)) => Some((k.clone(), m.clone())),
            _ => None,
        },
        _ => None,
    }
}
/// Another unit is called.
pub fn on_unit(e: &Eng, st: &mut State, f: usize, args: &[V]) {
    crate::props::on_unit(e, st, f, args);
    crate::ck::on_unit(e, st, f);
    if e.on("C19") && e.p.fns[f].name == crate::cut::READ {
        let ok = gint(st, G_MAPN) == Some(0);
        e.ob("C19", format!("{}: block mapped before the read", e.here()), if ok { String::new() } else { "a block number is mapped through the journal and then passed to a block read, which maps it again".into() }, ok, st.imp);
    }
}

/// A unit or root starts; its arguments.
pub fn on_enter(e: &Eng, st: &mut State, f: usize, args: &[V]) {
    reset(st);
    crate::props::on_enter(e, st, f, args);
    crate::ck::on_enter(e, st);
}
/// A unit or root ended; its exits before they are joined.
pub fn on_exits(e: &Eng, f: usize, args: &[V], out: &[(State, V)]) {
    if e.prefix.get() {
        return;
    }
    let rty = e.p.fns[f].sig.1;
    if e.p.fns[f].name == crate::cut::READ {
        block_read(e, f, args, out, rty);
    }
    crate::props::on_exits(e, f, args, out);
    crate::ck::on_exits(e, f, args, out);
}
/// A unit or root ended.
pub fn on_return(e: &Eng, f: usize, _args: &[V], out: &[(State, V)]) {
    if e.prefix.get() {
        return;
    }
    let rty = e.p.fns[f].sig.1;
    if e.on("C06") && fallible(e, rty) {
        io_errors(e, out, rty);
    }
}
/// Whether the bytes of a value are those of the device at a position.
pub fn same_as_dev(e: &Eng, st: &State, v: &V, pos: &Lin) -> (bool, bool, String) {
    let mut s = st.clone();
    let Some((c, o, len)) = e.bytes(&mut s, v) else { return (false, true, v.show()) };
    let i = sym(hash(&"somebyte"), Some(0), Some(umax(63)));
    if !s.assume(&ge(&len, &i.addk(1))) {
        return (true, false, String::new());
    }
    let a = e.load(&s, c, &o.add(&i), 1, false);
    let b = e.load(&s, mkc(Cont::Dev), &pos.add(&i), 1, false);
    let d = eq(&a, &b);
    let ok = a == b || decide(&s, &d) || same_load(&s, &a, &b);
    let mut what = format!("{} but expected {}", show(&a), show(&b));
    if !ok && std::env::var("VF_FACTS").is_ok() {
        for f in s.facts.0.iter() {
            what.push_str(&format!("\n        {}", f.show()));
        }
    }
    (ok, a.imp(), what)
}
/// Leaves out the products of which a factor is zero.
fn nonzero(s: &State, l: &Lin) -> Lin {
    let mut l = l.clone();
    l.t.retain(|(a, _)| match atom(*a) {
        Atom::Mul(v) => !v.iter().any(|x| decide(s, &Cond::fact(Fact::Eq(Lin::a(*x))))),
        _ => true,
    });
    l
}
/// Two loads from the device at provably equal positions.
fn same_load(s: &State, a: &Lin, b: &Lin) -> bool {
    let (Some((x, 0)), Some((y, 0))) = (a.single(), b.single()) else { return false };
    match (atom(x), atom(y)) {
        (Atom::Load(c, o, 1, _), Atom::Load(d, p, 1, _)) => c == d && decide(s, &Cond::fact(Fact::Eq(nonzero(s, &o.sub(&p))))),
        _ => false,
    }
}
/// The block read: arguments are the block, the offset in it, the destination.
fn block_read(e: &Eng, f: usize, args: &[V], out: &[(State, V)], rty: usize) {
    let mut ints = vec![];
    let mut dst = None;
    for (a, t) in args.iter().zip(&e.p.fns[f].sig.0) {
        match a {
            V::Int(l) => ints.push(l.clone()),
            V::MSlice(_, _, len) => dst = Some((a.clone(), len.clone())),
            _ => {
                let _ = t;
            }
        }
    }
    let (2, Some((dv, len))) = (ints.len(), dst) else { return };
    let (blk, off) = (&ints[0], &ints[1]);
    let bs = block_size();
    for (st, v) in out {
        for (s, r) in results(e, st, v, rty) {
            match r {
                Res::Val(..) => {
                    check(e, "C03", "start of a successful read", &s, &ge(&bs, &off.addk(1)), "a read starting at or past the end of the block succeeds".into());
                    check(e, "C03", "end of a successful read", &s, &ge(&bs, &off.add(&len)), "a read past the end of the block succeeds".into());
                    let n = gint(&s, G_MAPN);
                    let one = n == Some(1);
                    e.ob("C19", format!("{}: mapped once", e.here()), if one { String::new() } else { "a block is read without going through the journal exactly once".into() }, one, s.imp);
                    let (k, m) = mapping(&s).unwrap_or((blk.clone(), blk.clone()));
                    check(e, "C19", "block looked up", &s, &eq(&k, blk), "the block looked up in the journal is not the one asked for".into());
                    check(e, "C03", "block of a successful read", &s, &ge(&blocks(), &m.addk(1)), "a read of a block past the end of the filesystem succeeds".into());
                    let res = Cond::or(vec![ge(&m, &Lin::c(1)), ge(off, &Lin::c(1024))]);
                    check(e, "C03", "reserved area", &s, &res, "a read of the reserved first 1024 bytes succeeds".into());
                    let pos = mul(&bs, &m).add(off);
                    let (ok, imp, what) = same_as_dev(e, &s, &dv, &pos);
                    for p in ["C18", "C19"] {
                        e.ob(p, format!("{}: content", e.here()), if ok { String::new() } else { format!("the bytes returned are not those the device holds for the mapped block ({})", what) }, ok, imp || s.imp);
                    }
                }
                _ => {}
            }
        }
    }
}
fn io_errors(e: &Eng, out: &[(State, V)], rty: usize) {
    for (st, v) in out {
        for (s, r) in results(e, st, v, rty) {
            let io = match s.get(G_IO) {
                V::Int(l) => l,
                _ => continue,
            };
            match r {
                Res::Err(k, p, _) if k == "Io" => {
                    check(e, "C06", "I/O error without a failed read", &s, &eq(&io, &Lin::c(1)), "an I/O error is returned although no device read failed".into());
                    let ok = matches!(p.first(), Some(V::Tok("ioerr", _)));
                    e.ob("C06", format!("{}: error of the reader", e.here()), if ok { String::new() } else { format!("the I/O error returned is not the reader's own: {}", p.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")) }, ok, s.imp);
                }
                Res::Err(k, _, _) => {
                    check(e, "C06", "failed read not reported", &s, &eq(&io, &Lin::c(0)), format!("a device read failed but the operation returns the error {}", k));
                }
                Res::End => {
                    check(e, "C06", "failed read not reported", &s, &eq(&io, &Lin::c(0)), "a device read failed but the operation reports the end".into());
                }
                Res::Val(..) => {
                    check(e, "C06", "failed read not reported", &s, &eq(&io, &Lin::c(0)), "a device read failed but the operation succeeds".into());
                }
            }
        }
    }
}
/// Whether every term of the value is a multiple of the block size.
fn multiple(l: &Lin, bs: &Lin) -> bool {
    let Some(p) = bs.t.first().map(|x| x.0) else { return false };
    l.k == 0
        && l.t.iter().all(|(a, c)| {
            c % 1024 == 0
                && (*a == p
                    || match atom(*a) {
                        Atom::Mul(v) => v.contains(&p),
                        _ => false,
                    })
        })
}
