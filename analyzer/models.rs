//! What the standard library and the environment do, as transfer functions.
//! Everything not listed here is executed from its own MIR.
use crate::exec::*;
use crate::merge::*;
use crate::prog::*;
use crate::rules;
use crate::solve::*;
use crate::state::*;
use crate::term::*;
use std::rc::Rc;

pub type Model = fn(&Eng, usize, Vec<V>, State, u64, usize) -> Out;

fn one(st: State, v: V) -> Out {
    vec![(st, v)]
}
fn ge(a: &Lin, b: &Lin) -> Cond {
    Cond::fact(Fact::Ge(a.sub(b)))
}
fn lt(a: &Lin, b: &Lin) -> Cond {
    Cond::fact(Fact::Ge(b.sub(a).addk(-1)))
}
fn eq(a: &Lin, b: &Lin) -> Cond {
    Cond::fact(Fact::Eq(a.sub(b)))
}
/// The states in which a condition holds and does not hold.
fn fork(st: &State, c: &Cond) -> (Option<State>, Option<State>) {
    let mut a = st.clone();
    let mut b = st.clone();
    let (x, y) = (a.assume(c), b.assume(&c.not()));
    (if x { Some(a) } else { None }, if y { Some(b) } else { None })
}
fn aty(e: &Eng, f: usize, i: usize) -> usize {
    e.p.fns[f].sig.0.get(i).copied().unwrap_or(0)
}
fn pointee(e: &Eng, t: usize) -> usize {
    match e.ty(t) {
        TyK::Ref(x, _) | TyK::Ptr(x) => *x,
        _ => t,
    }
}
fn is_mut(e: &Eng, t: usize) -> bool {
    matches!(e.ty(t), TyK::Ref(_, true) | TyK::Ptr(_))
}
/// The place a reference ultimately denotes.
fn tgt(e: &Eng, st: &mut State, v: &V) -> Option<Place> {
    match v {
        V::Ref(p) => match e.read(st, p) {
            w @ (V::Ref(_) | V::Guard(_)) => tgt(e, st, &w),
            V::Shared(c) => Some(Place::cell(c)),
            _ => Some((**p).clone()),
        },
        V::Guard(p) => Some(p.with(P::In)),
        V::Shared(c) => Some(Place::cell(*c)),
        V::MSlice(p, o, _) if o.is_c() == Some(0) => Some((**p).clone()),
        _ => None,
    }
}
/// The value behind any number of references.
fn val(e: &Eng, st: &mut State, v: &V) -> V {
    let mut v = v.clone();
    for _ in 0..6 {
        v = match &v {
            V::Ref(p) => e.read(st, p),
            V::Guard(p) => e.read(st, &p.with(P::In)),
            _ => return v,
        };
    }
    v
}
fn int(e: &Eng, st: &mut State, v: &V) -> Lin {
    let w = val(e, st, v);
    if let V::MSlice(p, o, _) = &w {
        if let V::Buf { c, off, .. } = e.read(st, p) {
            return e.load(st, c, &off.add(o), 1, false);
        }
    }
    e.int(st, &w, 77)
}
#[derive(Clone, Debug)]
pub enum Sl {
    Bytes(Cid, Lin, Lin),
    Mem(Place, Lin, Lin, bool),
    Unk,
}
impl Sl {
    fn len(&self) -> Lin {
        match self {
            Sl::Bytes(_, _, l) | Sl::Mem(_, _, l, _) => l.clone(),
            Sl::Unk => sym_imp(hash(&"sllen"), Some(0), Some(umax(63))),
        }
    }
}
/// The slice a value (slice reference, container reference, buffer) denotes.
fn sl(e: &Eng, st: &mut State, v: &V) -> Sl {
    match v {
        V::View { c, off, len } | V::Buf { c, off, len } => Sl::Bytes(*c, off.clone(), len.clone()),
        V::MSlice(p, o, l) => match e.read(st, p) {
            V::Buf { .. } => Sl::Mem((**p).clone(), o.clone(), l.clone(), true),
            V::Seq(_) => Sl::Mem((**p).clone(), o.clone(), l.clone(), false),
            _ => Sl::Unk,
        },
        V::Ref(_) | V::Guard(_) => match tgt(e, st, v) {
            Some(p) => match e.read(st, &p) {
                V::Buf { len, .. } => Sl::Mem(p, Lin::c(0), len, true),
                V::Seq(s) => Sl::Mem(p, Lin::c(0), s.len.clone(), false),
                w @ (V::View { .. } | V::MSlice(..)) => sl(e, st, &w),
                V::Boxed(b) if matches!(*b, V::Seq(_) | V::Buf { .. }) => {
                    let l = e.vlen(st, &b);
                    Sl::Mem(p.with(P::Box), Lin::c(0), l, matches!(*b, V::Buf { .. }))
                }
                _ => Sl::Unk,
            },
            None => Sl::Unk,
        },
        _ => Sl::Unk,
    }
}
/// Content of a byte slice.
fn content(e: &Eng, st: &mut State, s: &Sl) -> Option<(Cid, Lin, Lin)> {
    match s {
        Sl::Bytes(c, o, l) => Some((*c, o.clone(), l.clone())),
        Sl::Mem(p, o, l, true) => match e.read(st, p) {
            V::Buf { c, off, .. } => Some((c, off.add(o), l.clone())),
            _ => None,
        },
        _ => None,
    }
}
fn bytes(e: &Eng, st: &mut State, v: &V) -> Option<(Cid, Lin, Lin)> {
    let s = sl(e, st, v);
    content(e, st, &s)
}
fn subslice(e: &Eng, st: &mut State, s: &Sl, a: &Lin, len: &Lin, m: bool) -> V {
    match s {
        Sl::Bytes(c, o, _) => V::View { c: *c, off: o.add(a), len: len.clone() },
        Sl::Mem(p, o, _, b) => {
            if *b && !m {
                if let V::Buf { c, off, .. } = e.read(st, p) {
                    return V::View { c, off: off.add(o).add(a), len: len.clone() };
                }
            }
            V::MSlice(Rc::new(p.clone()), o.add(a), len.clone())
        }
        Sl::Unk => V::Top(0, hash(&("sub", a, len)), true),
    }
}
/// A reference to element i (assumed in range).
fn elem_ref(e: &Eng, mut st: State, s: &Sl, i: &Lin, m: bool, ctx: u64) -> Out {
    match s {
        Sl::Bytes(c, o, _) => {
            let b = e.load(&st, *c, &o.add(i), 1, false);
            let cell = hash(&(ctx, "eb"));
            st.set(cell, V::Int(b));
            one(st, V::Ref(Rc::new(Place::cell(cell))))
        }
        Sl::Mem(p, o, _, true) => {
            if m {
                return one(st, V::MSlice(Rc::new(p.clone()), o.add(i), Lin::c(1)));
            }
            let V::Buf { c, off, .. } = e.read(&mut st, p) else { return one(st, V::Top(0, 6, true)) };
            let b = e.load(&st, c, &off.add(o).add(i), 1, false);
            let cell = hash(&(ctx, "eb"));
            st.set(cell, V::Int(b));
            one(st, V::Ref(Rc::new(Place::cell(cell))))
        }
        Sl::Mem(p, o, _, false) => e.seq_at(st, p, &o.add(i)).into_iter().map(|(s, j)| (s, V::Ref(Rc::new(p.with(P::Idx(j)))))).collect(),
        Sl::Unk => {
            st.imp = true;
            one(st, V::Top(0, hash(&(ctx, "er")), true))
        }
    }
}

// ---- indexing ---------------------------------------------------------------

enum Ix {
    At(Lin),
    Range(Lin, Lin),
}
fn ix(e: &Eng, st: &mut State, ity: usize, v: &V, len: &Lin) -> Option<Ix> {
    match e.ty(ity) {
        TyK::Int { .. } => Some(Ix::At(e.int(st, v, 3))),
        TyK::Adt { path, .. } => {
            let n = path.rsplit("::").next().unwrap_or("");
            let f = |i: usize| -> Option<Lin> {
                match v {
                    V::Agg(a) => match a.get(i) {
                        Some(V::Int(l)) => Some(l.clone()),
                        _ => None,
                    },
                    V::Int(l) if i == 0 => Some(l.clone()),
                    _ => None,
                }
            };
            match n {
                "Range" => Some(Ix::Range(f(0)?, f(1)?)),
                "RangeFrom" => Some(Ix::Range(f(0)?, len.clone())),
                "RangeTo" => Some(Ix::Range(Lin::c(0), f(0)?)),
                "RangeFull" => Some(Ix::Range(Lin::c(0), len.clone())),
                "RangeInclusive" => Some(Ix::Range(f(0)?, f(1)?.addk(1))),
                "RangeToInclusive" => Some(Ix::Range(Lin::c(0), f(0)?.addk(1))),
                _ => None,
            }
        }
        _ => None,
    }
}
fn in_range(x: &Ix, len: &Lin) -> Cond {
    match x {
        Ix::At(i) => lt(i, len),
        Ix::Range(a, b) => Cond::and(vec![ge(b, a), ge(len, b)]),
    }
}
fn show_ix(x: &Ix, len: &Lin) -> String {
    match x {
        Ix::At(i) => format!("index {} of {}", show(i), show(len)),
        Ix::Range(a, b) => format!("range {}..{} of {}", show(a), show(b), show(len)),
    }
}
fn m_index(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let s = sl(e, &mut st, &a[0]);
    let len = s.len();
    let m = is_mut(e, dty);
    let ity = aty(e, f, 1);
    if matches!(s, Sl::Unk) {
        return e.havoc(f, a, st, ctx, dty);
    }
    let Some(x) = ix(e, &mut st, ity, &a[1], &len) else { return e.havoc(f, a, st, ctx, dty) };
    let c = in_range(&x, &len);
    rules::panic_ob(e, &st, &c, "index", &show_ix(&x, &len));
    if !st.assume(&c) {
        return vec![];
    }
    match x {
        Ix::At(i) => elem_ref(e, st, &s, &i, m, ctx),
        Ix::Range(p, q) => {
            let v = subslice(e, &mut st, &s, &p, &q.sub(&p), m);
            one(st, v)
        }
    }
}
fn m_get(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let s = sl(e, &mut st, &a[0]);
    let len = s.len();
    let m = is_mut(e, e.pty(dty, "Some", 0));
    let ity = aty(e, f, 1);
    if matches!(s, Sl::Unk) {
        return e.havoc(f, a, st, ctx, dty);
    }
    let Some(x) = ix(e, &mut st, ity, &a[1], &len) else { return e.havoc(f, a, st, ctx, dty) };
    let (yes, no) = fork(&st, &in_range(&x, &len));
    let mut out = vec![];
    if let Some(mut y) = yes {
        match x {
            Ix::At(i) => {
                for (s2, r) in elem_ref(e, y, &s, &i, m, ctx) {
                    let v = e.some(dty, r);
                    out.push((s2, v));
                }
            }
            Ix::Range(p, q) => {
                let r = subslice(e, &mut y, &s, &p, &q.sub(&p), m);
                let v = e.some(dty, r);
                out.push((y, v));
            }
        }
    }
    if let Some(n) = no {
        out.push((n, e.none(dty)));
    }
    out
}
fn m_first(e: &Eng, _f: usize, a: Vec<V>, st: State, ctx: u64, dty: usize) -> Out {
    end_ref(e, a, st, ctx, dty, false)
}
fn m_last(e: &Eng, _f: usize, a: Vec<V>, st: State, ctx: u64, dty: usize) -> Out {
    end_ref(e, a, st, ctx, dty, true)
}
fn end_ref(e: &Eng, a: Vec<V>, mut st: State, ctx: u64, dty: usize, last: bool) -> Out {
    let s = sl(e, &mut st, &a[0]);
    let len = s.len();
    let m = is_mut(e, e.pty(dty, "Some", 0));
    let (yes, no) = fork(&st, &ge(&len, &Lin::c(1)));
    let mut out = vec![];
    if let Some(y) = yes {
        let i = if last { len.addk(-1) } else { Lin::c(0) };
        for (s2, r) in elem_ref(e, y, &s, &i, m, ctx) {
            let v = e.some(dty, r);
            out.push((s2, v));
        }
    }
    if let Some(n) = no {
        out.push((n, e.none(dty)));
    }
    out
}

// ---- slices -----------------------------------------------------------------

fn m_len(e: &Eng, _f: usize, a: Vec<V>, mut st: State, _ctx: u64, _dty: usize) -> Out {
    let w = val(e, &mut st, &a[0]);
    let l = e.vlen(&mut st, &w);
    one(st, V::Int(l))
}
fn m_is_empty(e: &Eng, _f: usize, a: Vec<V>, mut st: State, _ctx: u64, _dty: usize) -> Out {
    let w = val(e, &mut st, &a[0]);
    let l = e.vlen(&mut st, &w);
    one(st, V::Bool(eq(&l, &Lin::c(0))))
}
/// Conversions between containers, slices and arrays that keep the content.
fn m_as_slice(e: &Eng, _f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let s = sl(e, &mut st, &a[0]);
    let m = is_mut(e, dty);
    let len = s.len();
    if let Sl::Unk = s {
        let w = val(e, &mut st, &a[0]);
        if let V::Tok(t, k) = w {
            return one(st, V::Tok(t, k));
        }
        e.note_unmodelled(&format!("as_slice of an unknown value {} in {}", w.show().chars().take(60).collect::<String>(), e.here()));
        st.imp = true;
        let v = e.sym_d(&mut st, dty, hash(&(ctx, "as")), 2, true);
        return one(st, v);
    }
    let v = subslice(e, &mut st, &s, &Lin::c(0), &len, m);
    one(st, v)
}
fn m_id(_e: &Eng, _f: usize, a: Vec<V>, st: State, _ctx: u64, _dty: usize) -> Out {
    let v = a.into_iter().next().unwrap_or(V::unit());
    one(st, v)
}
/// Owned copy of a byte string or sequence.
fn m_to_owned(e: &Eng, _f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    if let Some((c, off, len)) = bytes(e, &mut st, &a[0]) {
        return one(st, V::Buf { c, off, len });
    }
    let w = val(e, &mut st, &a[0]);
    let w = match w {
        V::MSlice(p, o, l) => match e.read(&mut st, &p) {
            V::Seq(s) if o.is_c() == Some(0) && s.len == l => V::Seq(s),
            _ => V::Uninit,
        },
        w => w,
    };
    match w {
        V::Seq(_) | V::Buf { .. } | V::Boxed(_) => one(st, w),
        _ => {
            e.note_unmodelled("copy of an unknown value");
            let v = e.sym_d(&mut st, dty, hash(&(ctx, "own")), 2, true);
            one(st, v)
        }
    }
}
fn m_copy_from_slice(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let d = sl(e, &mut st, &a[0]);
    let s = bytes(e, &mut st, &a[1]);
    match (d, s) {
        (Sl::Mem(p, o, l, true), Some((c, so, sl))) => {
            let k = eq(&l, &sl);
            rules::panic_ob(e, &st, &k, "copy_from_slice", &format!("lengths {} and {}", show(&l), show(&sl)));
            if !st.assume(&k) {
                return vec![];
            }
            e.store(&mut st, &p, &o, &l, c, &so);
            one(st, V::unit())
        }
        _ => e.havoc(f, a, st, ctx, dty),
    }
}
fn m_fill(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    match sl(e, &mut st, &a[0]) {
        Sl::Mem(p, o, l, true) => {
            let b = int(e, &mut st, &a[1]);
            let c = mkc(if b.is_c() == Some(0) { Cont::Zero } else { Cont::Fill(b) });
            e.store(&mut st, &p, &o, &l, c, &Lin::c(0));
            one(st, V::unit())
        }
        _ => e.havoc(f, a, st, ctx, dty),
    }
}
/// Equality of two byte strings.
pub fn beq(e: &Eng, st: &State, a: &(Cid, Lin, Lin), b: &(Cid, Lin, Lin)) -> Cond {
    let le = eq(&a.2, &b.2);
    if a.0 == b.0 && a.1 == b.1 {
        return le;
    }
    if st.holds(&le.not()) {
        return Cond::F;
    }
    let n = a.2.is_c().or(b.2.is_c());
    if let Some(n) = n {
        if n <= 16 {
            let mut v = vec![le];
            for j in 0..n {
                v.push(eq(&e.load(st, a.0, &a.1.addk(j), 1, false), &e.load(st, b.0, &b.1.addk(j), 1, false)));
            }
            return Cond::and(v);
        }
    }
    let q = fun("beq", vec![Arg::C(a.0), Arg::L(a.1.clone()), Arg::C(b.0), Arg::L(b.1.clone()), Arg::L(a.2.clone())], Some(0), Some(1));
    Cond::and(vec![le, Cond::fact(Fact::Ge(q.addk(-1)))])
}
fn m_eq(e: &Eng, f: usize, a: Vec<V>, st: State, ctx: u64, dty: usize) -> Out {
    let mut st = st;
    match (bytes(e, &mut st, &a[0]), bytes(e, &mut st, &a[1])) {
        (Some(x), Some(y)) => {
            let c = beq(e, &st, &x, &y);
            one(st, V::Bool(c))
        }
        _ => {
            let (x, y) = (val(e, &mut st, &a[0]), val(e, &mut st, &a[1]));
            if matches!((&x, &y), (V::Int(_) | V::Bool(_), V::Int(_) | V::Bool(_))) {
                let v = e.compare(&mut st, "Eq", &x, &y);
                return one(st, v);
            }
            if let (Some(body), true) = (&e.p.fns[f].body, e.p.fns[f].krate != "core" || !e.p.fns[f].path.contains("[")) {
                return e.exec_fn(f, body, a, st, ctx);
            }
            let v = e.sym_d(&mut st, dty, hash(&(ctx, "eq")), 2, true);
            one(st, v)
        }
    }
}
fn m_ne(e: &Eng, f: usize, a: Vec<V>, st: State, ctx: u64, dty: usize) -> Out {
    m_eq(e, f, a, st, ctx, dty).into_iter().map(|(s, v)| (s, if let V::Bool(c) = v { V::Bool(c.not()) } else { v })).collect()
}
/// Whether a slice starts (ends) with another.
fn m_edge(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let end = e.p.fns[f].path.contains("ends_with");
    if let (Some((c, o, l)), Some(y)) = (bytes(e, &mut st, &a[0]), bytes(e, &mut st, &a[1])) {
        let n = y.2.clone();
        let at = if end { o.add(&l).sub(&n) } else { o };
        let k = Cond::and(vec![ge(&l, &n), beq(e, &st, &(c, at, n), &y)]);
        return one(st, V::Bool(k));
    }
    let v = e.sym_d(&mut st, dty, hash(&(ctx, "edge")), 2, true);
    one(st, v)
}
fn m_contains(e: &Eng, _f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    // Whether some element equals a value: not tracked beyond constant content.
    if let Some((c, o, l)) = bytes(e, &mut st, &a[0]) {
        if let Some(n) = l.is_c() {
            if n <= 8 {
                let x = int(e, &mut st, &a[1]);
                let v = (0..n).map(|j| eq(&e.load(&st, c, &o.addk(j), 1, false), &x)).collect();
                return one(st, V::Bool(Cond::or(v)));
            }
        }
        let x = int(e, &mut st, &a[1]);
        let q = if e.on("C13") { crate::names::has(c, &o, &l, &x) } else { sym_imp(hash(&("contains", c, &o, &l, &x)), Some(0), Some(1)) };
        return one(st, V::Bool(Cond::fact(Fact::Ge(q.addk(-1)))));
    }
    let v = e.sym_d(&mut st, dty, hash(&(ctx, "contains")), 2, true);
    one(st, v)
}

// ---- iterators over slices and ranges -----------------------------------------

fn m_iter(e: &Eng, _f: usize, a: Vec<V>, mut st: State, _ctx: u64, _dty: usize) -> Out {
    let s = sl(e, &mut st, &a[0]);
    let len = s.len();
    let v = subslice(e, &mut st, &s, &Lin::c(0), &len, true);
    one(st, V::agg(vec![v, V::int(0), V::Int(len)]))
}
fn it_parts(v: &V) -> Option<(V, Lin, Lin)> {
    if let V::Agg(a) = v {
        if let [s, V::Int(i), V::Int(n)] = &a[..] {
            return Some((s.clone(), i.clone(), n.clone()));
        }
    }
    None
}
fn m_iter_next(e: &Eng, f: usize, a: Vec<V>, st: State, ctx: u64, dty: usize) -> Out {
    iter_step(e, f, a, st, ctx, dty, false)
}
fn m_iter_next_back(e: &Eng, f: usize, a: Vec<V>, st: State, ctx: u64, dty: usize) -> Out {
    iter_step(e, f, a, st, ctx, dty, true)
}
fn iter_step(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize, back: bool) -> Out {
    let Some(p) = tgt(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let it = e.read(&mut st, &p);
    let Some((s, i, n)) = it_parts(&it) else { return e.havoc(f, a, st, ctx, dty) };
    let m = is_mut(e, e.pty(dty, "Some", 0));
    let (yes, no) = fork(&st, &lt(&i, &n));
    let mut out = vec![];
    if let Some(mut y) = yes {
        let (at, ni, nn) = if back { (n.addk(-1), i.clone(), n.addk(-1)) } else { (i.clone(), i.addk(1), n.clone()) };
        e.write(&mut y, &p, V::agg(vec![s.clone(), V::Int(ni), V::Int(nn)]));
        let q = sl(e, &mut y, &s);
        for (s2, r) in elem_ref(e, y, &q, &at, m, ctx) {
            let v = e.some(dty, r);
            out.push((s2, v));
        }
    }
    if let Some(x) = no {
        out.push((x, e.none(dty)));
    }
    out
}
fn m_iter_nth(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let Some(p) = tgt(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let it = e.read(&mut st, &p);
    let Some((s, i, n)) = it_parts(&it) else { return e.havoc(f, a, st, ctx, dty) };
    let k = int(e, &mut st, &a[1]);
    let at = i.add(&k);
    let m = is_mut(e, e.pty(dty, "Some", 0));
    let (yes, no) = fork(&st, &lt(&at, &n));
    let mut out = vec![];
    if let Some(mut y) = yes {
        e.write(&mut y, &p, V::agg(vec![s.clone(), V::Int(at.addk(1)), V::Int(n.clone())]));
        let q = sl(e, &mut y, &s);
        for (s2, r) in elem_ref(e, y, &q, &at, m, ctx) {
            let v = e.some(dty, r);
            out.push((s2, v));
        }
    }
    if let Some(mut x) = no {
        e.write(&mut x, &p, V::agg(vec![s, V::Int(n.clone()), V::Int(n)]));
        out.push((x, e.none(dty)));
    }
    out
}
fn range_parts(v: &V) -> Option<(Lin, Lin)> {
    if let V::Agg(a) = v {
        if let [V::Int(i), V::Int(n)] = &a[..] {
            return Some((i.clone(), n.clone()));
        }
    }
    None
}
fn m_range_next(e: &Eng, f: usize, a: Vec<V>, st: State, ctx: u64, dty: usize) -> Out {
    range_step(e, f, a, st, ctx, dty, false)
}
fn m_range_next_back(e: &Eng, f: usize, a: Vec<V>, st: State, ctx: u64, dty: usize) -> Out {
    range_step(e, f, a, st, ctx, dty, true)
}
fn range_step(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize, back: bool) -> Out {
    let Some(p) = tgt(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let it = e.read(&mut st, &p);
    let Some((i, n)) = range_parts(&it) else { return e.havoc(f, a, st, ctx, dty) };
    let (yes, no) = fork(&st, &lt(&i, &n));
    let mut out = vec![];
    if let Some(mut y) = yes {
        let (at, ni, nn) = if back { (n.addk(-1), i.clone(), n.addk(-1)) } else { (i.clone(), i.addk(1), n.clone()) };
        e.write(&mut y, &p, V::agg(vec![V::Int(ni), V::Int(nn)]));
        let v = e.some(dty, V::Int(at));
        out.push((y, v));
    }
    if let Some(x) = no {
        out.push((x, e.none(dty)));
    }
    out
}
fn m_rangei_new(_e: &Eng, _f: usize, a: Vec<V>, st: State, _ctx: u64, _dty: usize) -> Out {
    let v = V::agg(vec![a[0].clone(), a[1].clone(), V::Bool(Cond::F)]);
    one(st, v)
}
fn m_rangei_next(e: &Eng, f: usize, a: Vec<V>, st: State, ctx: u64, dty: usize) -> Out {
    rangei_step(e, f, a, st, ctx, dty, false)
}
fn m_rangei_next_back(e: &Eng, f: usize, a: Vec<V>, st: State, ctx: u64, dty: usize) -> Out {
    rangei_step(e, f, a, st, ctx, dty, true)
}
fn rangei_step(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize, back: bool) -> Out {
    let Some(p) = tgt(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let it = e.read(&mut st, &p);
    let (i, n, x) = match &it {
        V::Agg(q) => match &q[..] {
            [V::Int(i), V::Int(n), V::Bool(x)] => (i.clone(), n.clone(), x.clone()),
            _ => return e.havoc(f, a, st, ctx, dty),
        },
        _ => return e.havoc(f, a, st, ctx, dty),
    };
    let live = Cond::and(vec![x.not(), ge(&n, &i)]);
    let (yes, no) = fork(&st, &live);
    let mut out = vec![];
    if let Some(y) = yes {
        let (more, last) = fork(&y, &lt(&i, &n));
        let at = if back { n.clone() } else { i.clone() };
        if let Some(mut y) = more {
            let (ni, nn) = if back { (i.clone(), n.addk(-1)) } else { (i.addk(1), n.clone()) };
            e.write(&mut y, &p, V::agg(vec![V::Int(ni), V::Int(nn), V::Bool(Cond::F)]));
            let v = e.some(dty, V::Int(at.clone()));
            out.push((y, v));
        }
        if let Some(mut y) = last {
            e.write(&mut y, &p, V::agg(vec![V::Int(i.clone()), V::Int(n.clone()), V::Bool(Cond::T)]));
            let v = e.some(dty, V::Int(at));
            out.push((y, v));
        }
    }
    if let Some(s) = no {
        out.push((s, e.none(dty)));
    }
    out
}
/// Searches over an iterator: the closure is applied to an arbitrary element.
struct Src {
    lo: Lin,
    hi: Lin,
    slice: Option<V>,
    rev: bool,
}
fn src_of(e: &Eng, st: &mut State, v: &V) -> Option<Src> {
    if let Some((s, i, n)) = it_parts(v) {
        if !matches!(s, V::Int(_)) {
            return Some(Src { lo: i, hi: n, slice: Some(s), rev: false });
        }
    }
    if let Some((i, n)) = range_parts(v) {
        return Some(Src { lo: i, hi: n, slice: None, rev: false });
    }
    if let V::Agg(q) = v {
        match &q[..] {
            [V::Int(i), V::Int(n), V::Bool(x)] => {
                if st.holds(&x.not()) {
                    return Some(Src { lo: i.clone(), hi: n.addk(1), slice: None, rev: false });
                }
            }
            // Rev
            [x @ V::Agg(_)] => {
                let mut s = src_of(e, st, x)?;
                s.rev = !s.rev;
                return Some(s);
            }
            // Skip
            [x @ V::Agg(_), V::Int(n)] => {
                let s = src_of(e, st, x)?;
                if s.rev {
                    return None;
                }
                let at = s.lo.add(n);
                let lo = if e.on("C13") && st.holds(&ge(&s.hi, &at)) { at } else { min(&at, &s.hi) };
                return Some(Src { lo, ..s });
            }
            _ => {}
        }
    }
    None
}
fn closure_fn(e: &Eng, f: usize) -> Option<usize> {
    // The closure's body: the last type argument that is a closure.
    for t in e.p.fns[f].targs.iter().rev() {
        if let TyK::Closure(g, _) = e.ty(*t) {
            if *g >= 0 {
                return Some(*g as usize);
            }
        }
    }
    None
}
fn m_search(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let name = e.p.fns[f].path.rsplit("::").next().unwrap_or("").to_string();
    let by_val = matches!(e.ty(aty(e, f, 0)), TyK::Adt { .. });
    let it = if by_val { a[0].clone() } else { val(e, &mut st, &a[0]) };
    let (Some(src), Some(g)) = (src_of(e, &mut st, &it), closure_fn(e, f)) else {
        if let Some(b) = &e.p.fns[f].body {
            return e.exec_fn(f, b, a, st, ctx);
        }
        return e.havoc(f, a, st, ctx, dty);
    };
    // Result of the closure on element i.
    let apply = |st: State, i: &Lin, k: u64| -> Vec<(State, Cond, V)> {
        let mut out = vec![];
        let items: Out = match &src.slice {
            Some(s) => {
                let mut st = st;
                let q = sl(e, &mut st, s);
                elem_ref(e, st, &q, i, false, hash(&(ctx, k)))
            }
            None => one(st, V::Int(i.clone())),
        };
        for (mut s, item) in items {
            let cell = hash(&(ctx, k, "clo"));
            s.set(cell, a[1].clone());
            let arg = if name == "find" {
                let c2 = hash(&(ctx, k, "item"));
                s.set(c2, item.clone());
                V::Ref(Rc::new(Place::cell(c2)))
            } else {
                item.clone()
            };
            // Position and friends take FnMut: self by reference.
            for (s2, r) in e.call(g, vec![V::Ref(Rc::new(Place::cell(cell))), V::agg(vec![arg])], s, hash(&(ctx, k, "call")), 0) {
                let c = e.bool_(&r, hash(&(ctx, k)));
                out.push((s2, c, item.clone()));
            }
        }
        out
    };
    let want = name != "all";
    let mut out = vec![];
    let found_v = |_s: &mut State, i: &Lin, item: V| -> V {
        match name.as_str() {
            "position" => e.some(dty, V::Int(i.sub(&src.lo))),
            "find" => e.some(dty, item),
            "any" => V::Bool(Cond::T),
            _ => V::Bool(Cond::F),
        }
    };
    let none_v = || -> V {
        match name.as_str() {
            "position" | "find" => e.none(dty),
            "any" => V::Bool(Cond::F),
            _ => V::Bool(Cond::T),
        }
    };
    // Byte values that no element of a range has, if the closure is false
    // (for `all`: true) for each of them.
    let excluded = |st: &mut State, from: &Lin, n: &Lin, want: bool, k: u64| -> bool {
        let Some(V::View { c, off, .. }) = &src.slice else { return true };
        for b in [0, crate::names::SEP] {
            let i = sym(hash(&(ctx, "nopos", k)), Some(0), Some(umax(63)));
            let mut s = st.clone();
            if !s.assume(&Cond::and(vec![ge(&i, from), lt(&i, &from.add(n))])) {
                continue;
            }
            let x = e.load(&s, *c, &off.add(&i), 1, false);
            if !s.assume(&eq(&x, &Lin::c(b))) {
                continue;
            }
            let never = apply(s, &i, k).into_iter().all(|(mut s, c, _)| !s.assume(&if want { c.not() } else { c }));
            if never && !st.assume(&eq(&crate::names::has(*c, &off.add(from), n, &Lin::c(b)), &Lin::c(0))) {
                return false;
            }
        }
        true
    };
    // Found.
    {
        let i = sym(hash(&(ctx, "pos")), Some(0), Some(umax(63)));
        let mut s = st.clone();
        if s.assume(&Cond::and(vec![ge(&i, &src.lo), lt(&i, &src.hi)])) {
            for (mut s2, c, item) in apply(s, &i, 1) {
                let c = if want { c } else { c.not() };
                if std::env::var("VF_SEARCH").is_ok() { eprintln!("SEARCH item {} {} it {} = {} holds-not {}\n{}", item.show(), match &item { V::Ref(p) => e.read(&mut s2, p).show(), _ => String::new() }, it.show(), c.show(), s2.holds(&c.not()), s2.facts.0.iter().map(|f| format!("    {}\n", f.show())).collect::<String>()); }
                if s2.assume(&c) {
                    if e.on("C13") {
                        // What is so of the elements before it (after it, searching backwards).
                        let (from, n) = if src.rev { (i.addk(1), src.hi.sub(&i).addk(-1)) } else { (src.lo.clone(), i.sub(&src.lo)) };
                        if !excluded(&mut s2, &from, &n, want, 5) {
                            continue;
                        }
                    }
                    if let (true, true, Some((k, o, b))) = (e.on("C13"), want, crate::names::compares(&c)) {
                        let at = o.sub(&i);
                        if name == "position" && !src.rev {
                            // The first element, or not the first.
                            let mut s3 = s2.clone();
                            if s3.assume(&ge(&i, &src.lo.addk(1))) && s3.assume(&eq(&e.load(&s3, k, &at.add(&src.lo), 1, false), &Lin::c(b)).not()) {
                                if !by_val {
                                    if let Some(p) = tgt(e, &mut s3, &a[0]) {
                                        advance(e, &mut s3, &p, &i, &src);
                                    }
                                }
                                let v = found_v(&mut s3, &i, item.clone());
                                out.push((s3, v));
                            }
                            if !s2.assume(&eq(&i, &src.lo)) || !s2.assume(&eq(&e.load(&s2, k, &at.add(&src.lo), 1, false), &Lin::c(b))) {
                                continue;
                            }
                        }
                    }
                    if !by_val {
                        if let Some(p) = tgt(e, &mut s2, &a[0]) {
                            advance(e, &mut s2, &p, &i, &src);
                        }
                    }
                    let v = found_v(&mut s2, &i, item);
                    out.push((s2, v));
                }
            }
        }
    }
    // What not finding it means for all the bytes searched.
    let mut st = st;
    if e.on("C13") {
        let n = src.hi.sub(&src.lo);
        excluded(&mut st, &src.lo, &n, want, 4);
    }
    // Not found: in particular not the first and not the last element.
    let (ne, em) = fork(&st, &lt(&src.lo, &src.hi));
    if let Some(s) = em {
        out.push((s, none_v()));
    }
    if let Some(s) = ne {
        for (mut s2, c, _) in apply(s, &src.lo.clone(), 2) {
            let c = if want { c } else { c.not() };
            if !s2.assume(&c.not()) {
                continue;
            }
            for (mut s3, c, _) in apply(s2, &src.hi.addk(-1), 3) {
                let c = if want { c } else { c.not() };
                if s3.assume(&c.not()) {
                    if !by_val {
                        if let Some(p) = tgt(e, &mut s3, &a[0]) {
                            advance(e, &mut s3, &p, &src.hi.addk(-1), &src);
                        }
                    }
                    out.push((s3, none_v()));
                }
            }
        }
    }
    out
}
fn advance(e: &Eng, st: &mut State, p: &Place, i: &Lin, src: &Src) {
    if let (Some(s), false) = (&src.slice, src.rev) {
        if it_parts(&e.read(st, p)).is_some() {
            e.write(st, p, V::agg(vec![s.clone(), V::Int(i.addk(1)), V::Int(src.hi.clone())]));
            return;
        }
    }
    if src.slice.is_none() && !src.rev {
        if range_parts(&e.read(st, p)).is_some() {
            e.write(st, p, V::agg(vec![V::Int(i.addk(1)), V::Int(src.hi.clone())]));
        }
    }
}

// ---- split / chunks ------------------------------------------------------------

// Split: (slice, position, finished).
fn m_split(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, _dty: usize) -> Out {
    let s = sl(e, &mut st, &a[0]);
    let len = s.len();
    let v = subslice(e, &mut st, &s, &Lin::c(0), &len, false);
    let mut at = 2;
    if e.on("C13") {
        let sep = separator(e, f, &st, &a[1], &v, ctx);
        crate::names::on_split(e, &mut st, &v, sep);
        at = sep.map_or(2, |x| x as i128);
    }
    one(st, V::agg(vec![v, V::int(0), V::Bool(Cond::F), V::Int(len), V::int(at)]))
}
/// Whether a predicate on bytes holds for the separator, and for it only (if
/// that can be told).
fn separator(e: &Eng, f: usize, st: &State, clo: &V, v: &V, ctx: u64) -> Option<bool> {
    let mut s = st.clone();
    let q = sl(e, &mut s, v);
    let i = sym(hash(&(ctx, "any")), Some(0), Some(umax(63)));
    if !s.assume(&lt(&i, &q.len())) {
        return None;
    }
    let (k, off, _) = e.bytes(&mut s, v)?;
    let hit = eq(&e.load(&s, k, &off.add(&i), 1, false), &Lin::c(crate::names::SEP));
    let def = e.p.fns[f].targs.iter().rev().find_map(|t| if let TyK::FnDef(g) = e.ty(*t) { if *g >= 0 { Some(*g as usize) } else { None } } else { None });
    let mut all = true;
    for (mut s, item) in elem_ref(e, s, &q, &i, false, ctx) {
        let cell = hash(&(ctx, "sepclo"));
        s.set(cell, clo.clone());
        let out = match (closure_fn(e, f), def) {
            (Some(g), _) => e.call(g, vec![V::Ref(Rc::new(Place::cell(cell))), V::agg(vec![item.clone()])], s, hash(&(ctx, "sepcall")), 0),
            (None, Some(g)) => e.call(g, vec![item.clone()], s, hash(&(ctx, "sepcall")), 0),
            _ => return None,
        };
        for (s, r) in out {
            let c = e.bool_(&r, hash(&(ctx, "sep")));
            let mut miss = s.clone();
            if miss.assume(&hit) && miss.assume(&c.not()) {
                all = false;
            }
            let mut other = s.clone();
            if other.assume(&hit.not()) && other.assume(&c) {
                all = false;
            }
            if !all && (s.imp || rules::cond_imp(&c)) {
                return None;
            }
        }
    }
    Some(all)
}
fn m_split_next(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let Some(p) = tgt(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let V::Agg(q) = e.read(&mut st, &p) else { return e.havoc(f, a, st, ctx, dty) };
    let [s, V::Int(at), V::Bool(fin), V::Int(len), V::Int(known)] = &q[..] else { return e.havoc(f, a, st, ctx, dty) };
    let slash = e.on("C13") && known.is_c() == Some(1);
    crate::names::before_part(e, &mut st);
    let (done, live) = fork(&st, fin);
    let mut out = vec![];
    if let Some(mut d) = done {
        crate::names::on_part(e, &mut d, None);
        out.push((d, e.none(dty)));
    }
    if let Some(l) = live {
        let sw = sl(e, &mut l.clone(), s);
        // A separator further on, or the rest.
        let n = if e.on("C13") && known.is_c() != Some(2) { sym(hash(&(ctx, "comp")), Some(0), Some(umax(63))) } else { sym_imp(hash(&(ctx, "comp")), Some(0), Some(umax(63))) };
        let put = |mut y: State, n: &Lin, last: bool, out: &mut Out| {
            let (next, part) = if last { (len.clone(), len.sub(at)) } else { (at.add(n).addk(1), n.clone()) };
            // No part has a separator in it.
            if let (true, Some((c, o, _))) = (slash, e.bytes(&mut y.clone(), s)) {
                let sep = Lin::c(crate::names::SEP);
                let mut k = vec![eq(&crate::names::has(c, &o.add(at), &part, &sep), &Lin::c(0))];
                if !last {
                    k.push(eq(&e.load(&y, c, &o.add(at).add(n), 1, false), &sep));
                }
                if !y.assume(&Cond::and(k)) {
                    return;
                }
                let (some, none) = fork(&y, &ge(&part, &Lin::c(1)));
                if let Some(mut y) = some {
                    if y.assume(&eq(&e.load(&y, c, &o.add(at), 1, false), &sep).not()) {
                        emit(e, &mut y, &p, s, &next, last, len, known, at, &part, dty, out);
                    }
                }
                if let Some(mut y) = none {
                    if !last && !y.assume(&eq(&e.load(&y, c, &o.add(at), 1, false), &sep)) {
                        return;
                    }
                    emit(e, &mut y, &p, s, &next, last, len, known, at, &part, dty, out);
                }
                return;
            }
            emit(e, &mut y, &p, s, &next, last, len, known, at, &part, dty, out);
        };
        let mut y = l.clone();
        if y.assume(&lt(&at.add(&n), len)) {
            put(y, &n, false, &mut out);
        }
        put(l, &n, true, &mut out);
    }
    out
}
fn emit(e: &Eng, y: &mut State, p: &Place, s: &V, next: &Lin, last: bool, len: &Lin, known: &Lin, at: &Lin, part: &Lin, dty: usize, out: &mut Out) {
    crate::names::on_part(e, y, Some(part));
    e.write(y, p, V::agg(vec![s.clone(), V::Int(next.clone()), V::Bool(if last { Cond::T } else { Cond::F }), V::Int(len.clone()), V::Int(known.clone())]));
    let sw = sl(e, y, s);
    let r = subslice(e, y, &sw, at, part, false);
    let v = e.some(dty, r);
    out.push((y.clone(), v));
}
fn m_chunks(e: &Eng, _f: usize, a: Vec<V>, mut st: State, _ctx: u64, _dty: usize) -> Out {
    let s = sl(e, &mut st, &a[0]);
    let len = s.len();
    let v = subslice(e, &mut st, &s, &Lin::c(0), &len, false);
    let n = int(e, &mut st, &a[1]);
    rules::panic_ob(e, &st, &ge(&n, &Lin::c(1)), "chunks", "zero chunk size");
    one(st, V::agg(vec![v, V::int(0), V::Int(len), V::Int(n)]))
}
fn m_chunks_next(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let Some(p) = tgt(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let V::Agg(q) = e.read(&mut st, &p) else { return e.havoc(f, a, st, ctx, dty) };
    let [s, V::Int(at), V::Int(len), V::Int(n)] = &q[..] else { return e.havoc(f, a, st, ctx, dty) };
    let (yes, no) = fork(&st, &lt(at, len));
    let mut out = vec![];
    if let Some(y) = yes {
        let (full, part) = fork(&y, &ge(len, &at.add(n)));
        for (b, m) in [(full, n.clone()), (part, len.sub(at))] {
            if let Some(mut y) = b {
                let sw = sl(e, &mut y, s);
                e.write(&mut y, &p, V::agg(vec![s.clone(), V::Int(at.add(&m)), V::Int(len.clone()), V::Int(n.clone())]));
                let r = subslice(e, &mut y, &sw, at, &m, false);
                let v = e.some(dty, r);
                out.push((y, v));
            }
        }
    }
    if let Some(x) = no {
        out.push((x, e.none(dty)));
    }
    out
}

// ---- Vec -------------------------------------------------------------------------

fn elem_is_u8(e: &Eng, f: usize) -> bool {
    e.p.fns[f].targs.first().is_some_and(|t| e.is_u8(*t))
}
fn empty_vec(u8_: bool) -> V {
    if u8_ {
        V::Buf { c: mkc(Cont::Zero), off: Lin::c(0), len: Lin::c(0) }
    } else {
        V::Seq(Rc::new(SeqV { len: Lin::c(0), known: vec![], rest: vec![] }))
    }
}
fn m_vec_new(e: &Eng, f: usize, _a: Vec<V>, st: State, _ctx: u64, dty: usize) -> Out {
    // Vec<T> or VecDeque<T> or String.
    let u = match e.ty(dty) {
        TyK::Adt { targs, .. } if !targs.is_empty() => e.is_u8(targs[0]),
        TyK::Adt { .. } => true,
        _ => elem_is_u8(e, f),
    };
    one(st, empty_vec(u))
}
fn m_from_elem(e: &Eng, f: usize, a: Vec<V>, mut st: State, _ctx: u64, _dty: usize) -> Out {
    let n = int(e, &mut st, &a[1]);
    let v = if elem_is_u8(e, f) {
        let b = int(e, &mut st, &a[0]);
        V::Buf { c: mkc(if b.is_c() == Some(0) { Cont::Zero } else { Cont::Fill(b) }), off: Lin::c(0), len: n.clone() }
    } else {
        V::Seq(Rc::new(SeqV { len: n.clone(), known: vec![], rest: vec![Alt { v: a[0].clone(), facts: vec![], bound: vec![] }] }))
    };
    rules::on_alloc(e, &mut st, &n);
    one(st, v)
}
fn vecp(e: &Eng, st: &mut State, v: &V) -> Option<(Place, V)> {
    let p = tgt(e, st, v)?;
    let w = e.read(st, &p);
    Some((p, w))
}
fn m_push(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    crate::ck::on_push(e, &st, f);
    match vecp(e, &mut st, &a[0]) {
        Some((p, V::Buf { c, off, len })) => {
            let b = int(e, &mut st, &a[1]);
            let src = mkc(Cont::Int(b, 1, false));
            e.write(&mut st, &p, V::Buf { c, off, len: len.addk(1) });
            e.store(&mut st, &p, &len, &Lin::c(1), src, &Lin::c(0));
            one(st, V::unit())
        }
        Some((p, V::Seq(s))) => {
            let mut s2 = (*s).clone();
            s2.len = s2.len.addk(1);
            s2.known.push((s.len.clone(), a[1].clone()));
            e.write(&mut st, &p, V::Seq(Rc::new(s2)));
            one(st, V::unit())
        }
        _ => e.havoc(f, a, st, ctx, dty),
    }
}
fn m_pop(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let Some((p, w)) = vecp(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let len = e.vlen(&mut st, &w);
    let (yes, no) = fork(&st, &ge(&len, &Lin::c(1)));
    let mut out = vec![];
    if let Some(y) = yes {
        match w {
            V::Buf { c, off, len } => {
                let b = e.load(&y, c, &off.add(&len).addk(-1), 1, false);
                let mut y = y;
                e.write(&mut y, &p, V::Buf { c, off, len: len.addk(-1) });
                let v = e.some(dty, V::Int(b));
                out.push((y, v));
            }
            V::Seq(_) => {
                for (mut s, i) in e.seq_at(y, &p, &len.addk(-1)) {
                    let V::Seq(q) = e.read(&mut s, &p) else { continue };
                    let mut q2 = (*q).clone();
                    let mut v = V::Uninit;
                    q2.known.retain(|(j, x)| {
                        if *j == i {
                            v = x.clone();
                            false
                        } else {
                            true
                        }
                    });
                    q2.len = q2.len.addk(-1);
                    e.write(&mut s, &p, V::Seq(Rc::new(q2)));
                    let v = e.some(dty, v);
                    out.push((s, v));
                }
            }
            _ => return e.havoc(f, a, st, ctx, dty),
        }
    }
    if let Some(n) = no {
        out.push((n, e.none(dty)));
    }
    out
}
fn m_pop_front(e: &Eng, f: usize, mut a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let Some((_, w)) = vecp(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let len = e.vlen(&mut st, &w);
    let (yes, no) = fork(&st, &ge(&len, &Lin::c(1)));
    let mut out = vec![];
    if let Some(y) = yes {
        a.push(V::int(0));
        out.extend(m_remove(e, f, a, y, ctx, dty));
    }
    if let Some(n) = no {
        out.push((n, e.none(dty)));
    }
    out
}
fn m_swap_at(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let s = sl(e, &mut st, &a[0]);
    if matches!(s, Sl::Unk) || matches!(s, Sl::Mem(_, _, _, true)) {
        return e.havoc(f, a, st, ctx, dty);
    }
    let len = s.len();
    let (i, j) = (int(e, &mut st, &a[1]), int(e, &mut st, &a[2]));
    let c = Cond::and(vec![lt(&i, &len), lt(&j, &len)]);
    rules::panic_ob(e, &st, &c, "index", "swap");
    if !st.assume(&c) {
        return vec![];
    }
    let mut out = vec![];
    for (s1, r) in elem_ref(e, st, &s, &i, true, ctx) {
        for (mut s2, q) in elem_ref(e, s1, &s, &j, true, hash(&(ctx, 1))) {
            let (V::Ref(p), V::Ref(q)) = (&r, &q) else { continue };
            let (x, y) = (e.read(&mut s2, p), e.read(&mut s2, q));
            e.write(&mut s2, p, y);
            e.write(&mut s2, q, x);
            out.push((s2, V::unit()));
        }
    }
    out
}
fn m_split_at(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let s = sl(e, &mut st, &a[0]);
    if matches!(s, Sl::Unk) {
        return e.havoc(f, a, st, ctx, dty);
    }
    let len = s.len();
    let m = e.p.fns[f].path.ends_with("_mut");
    let i = int(e, &mut st, &a[1]);
    let c = ge(&len, &i);
    rules::panic_ob(e, &st, &c, "index", &format!("split at {} of {}", show(&i), show(&len)));
    if !st.assume(&c) {
        return vec![];
    }
    let x = subslice(e, &mut st, &s, &Lin::c(0), &i, m);
    let y = subslice(e, &mut st, &s, &i, &len.sub(&i), m);
    one(st, V::agg(vec![x, y]))
}
fn m_map_contains(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let Some((_, V::Map(m))) = vecp(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let k = int(e, &mut st, &a[1]);
    let q = sym_imp(hash(&("contains", m.key, &k)), Some(0), Some(1));
    one(st, V::Bool(Cond::fact(Fact::Ge(q.addk(-1)))))
}
fn m_clear(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    match vecp(e, &mut st, &a[0]) {
        Some((p, V::Buf { .. })) => {
            e.write(&mut st, &p, empty_vec(true));
            one(st, V::unit())
        }
        Some((p, V::Seq(_))) => {
            e.write(&mut st, &p, empty_vec(false));
            one(st, V::unit())
        }
        Some((p, V::Map(m))) => {
            e.write(&mut st, &p, V::Map(Rc::new(MapV { rest: vec![], key: m.key })));
            one(st, V::unit())
        }
        _ => e.havoc(f, a, st, ctx, dty),
    }
}
fn cut(st: &State, s: &SeqV, n: &Lin) -> SeqV {
    let mut s2 = s.clone();
    s2.len = n.clone();
    s2.known.retain(|(j, _)| !prove(&st.facts, &Fact::Ge(j.sub(n))));
    let known = std::mem::take(&mut s2.known);
    for (j, v) in known {
        if prove(&st.facts, &Fact::Ge(n.sub(&j).addk(-1))) {
            s2.known.push((j, v));
        } else {
            let a = alt_of(&st.facts, &j, &v, None);
            add_alt(&mut s2.rest, a, hash(&("cut", n)), &st.facts);
        }
    }
    s2
}
fn m_truncate(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let Some((p, w)) = vecp(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let n = int(e, &mut st, &a[1]);
    let len = e.vlen(&mut st, &w);
    let (short, same) = fork(&st, &lt(&n, &len));
    let mut out = vec![];
    if let Some(mut s) = short {
        match &w {
            V::Buf { c, off, .. } => e.write(&mut s, &p, V::Buf { c: *c, off: off.clone(), len: n.clone() }),
            V::Seq(q) => {
                let q2 = cut(&s, q, &n);
                e.write(&mut s, &p, V::Seq(Rc::new(q2)));
            }
            _ => return e.havoc(f, a, st, ctx, dty),
        }
        out.push((s, V::unit()));
    }
    if let Some(s) = same {
        out.push((s, V::unit()));
    }
    out
}
fn m_resize(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let Some((p, w)) = vecp(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let n = int(e, &mut st, &a[1]);
    rules::on_alloc(e, &mut st, &n);
    let len = e.vlen(&mut st, &w);
    let V::Buf { c, off, .. } = &w else { return e.havoc(f, a, st, ctx, dty) };
    let (grow, shrink) = fork(&st, &ge(&n, &len));
    let mut out = vec![];
    if let Some(mut s) = grow {
        let b = int(e, &mut s, &a[2]);
        let src = mkc(if b.is_c() == Some(0) { Cont::Zero } else { Cont::Fill(b) });
        e.write(&mut s, &p, V::Buf { c: *c, off: off.clone(), len: n.clone() });
        e.store(&mut s, &p, &len, &n.sub(&len), src, &Lin::c(0));
        out.push((s, V::unit()));
    }
    if let Some(mut s) = shrink {
        e.write(&mut s, &p, V::Buf { c: *c, off: off.clone(), len: n.clone() });
        out.push((s, V::unit()));
    }
    out
}
fn dig_slice(e: &Eng, st: &mut State, v: &V) -> Option<(Cid, Lin, Lin)> {
    if let Some(x) = bytes(e, st, v) {
        return Some(x);
    }
    if let Some((s, i, n)) = it_parts(v) {
        let (c, o, _) = bytes(e, st, &s)?;
        return Some((c, o.add(&i), n.sub(&i)));
    }
    if let V::Agg(a) = v {
        if a.len() == 1 {
            return dig_slice(e, st, &a[0]);
        }
    }
    None
}
fn m_extend(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let d = vecp(e, &mut st, &a[0]);
    let s = dig_slice(e, &mut st, &a[1]);
    match (d, s) {
        (Some((p, V::Buf { c, off, len })), Some((sc, so, n))) => {
            e.write(&mut st, &p, V::Buf { c, off, len: len.add(&n) });
            e.store(&mut st, &p, &len, &n, sc, &so);
            crate::props::on_grow(e, &mut st, &len.add(&n));
            one(st, V::unit())
        }
        _ => e.havoc(f, a, st, ctx, dty),
    }
}
fn m_remove(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let Some((p, w)) = vecp(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let i = int(e, &mut st, &a[1]);
    let len = e.vlen(&mut st, &w);
    let c = lt(&i, &len);
    // Option for a VecDeque, the value (or a panic) for a Vec.
    let opt = e.p.fns[f].path.contains("VecDeque");
    let mut out = vec![];
    if opt {
        let (_, no) = fork(&st, &c);
        if let Some(n) = no {
            out.push((n, e.none(dty)));
        }
    } else {
        rules::panic_ob(e, &st, &c, "remove", &format!("remove {} of {}", show(&i), show(&len)));
    }
    if !st.assume(&c) {
        return out;
    }
    match w {
        V::Buf { c, off, len } => {
            let b = e.load(&st, c, &off.add(&i), 1, false);
            let n = mkc(Cont::Patch { base: c, off: off.add(&i), len: len.addk(-1).sub(&i), src: c, soff: off.add(&i).addk(1) });
            let n = if patch_depth(n) > 24 { mkc(Cont::Fresh(hash(&("rm", n)), true)) } else { n };
            e.write(&mut st, &p, V::Buf { c: n, off, len: len.addk(-1) });
            let v = V::Int(b);
            let v = if opt { e.some(dty, v) } else { v };
            out.push((st, v));
        }
        V::Seq(_) => {
            for (mut s, i) in e.seq_at(st, &p, &i) {
                let V::Seq(q) = e.read(&mut s, &p) else { continue };
                let mut q2 = (*q).clone();
                let mut v = V::Uninit;
                let known = std::mem::take(&mut q2.known);
                for (j, x) in known {
                    if j == i {
                        v = x;
                    } else if prove(&s.facts, &Fact::Ge(i.sub(&j).addk(-1))) {
                        q2.known.push((j, x));
                    } else if prove(&s.facts, &Fact::Ge(j.sub(&i).addk(-1))) {
                        q2.known.push((j.addk(-1), x));
                    } else {
                        let a = alt_of(&s.facts, &j, &x, None);
                        add_alt(&mut q2.rest, a, hash(&("rm", &i)), &s.facts);
                    }
                }
                q2.len = q2.len.addk(-1);
                e.write(&mut s, &p, V::Seq(Rc::new(q2)));
                let v = if opt { e.some(dty, v) } else { v };
                out.push((s, v));
            }
        }
        _ => return e.havoc(f, a, st, ctx, dty),
    }
    out
}
fn m_push_front(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    match vecp(e, &mut st, &a[0]) {
        Some((p, V::Seq(s))) => {
            let mut s2 = (*s).clone();
            s2.len = s2.len.addk(1);
            s2.known = std::iter::once((Lin::c(0), a[1].clone())).chain(s.known.iter().map(|(j, x)| (j.addk(1), x.clone()))).collect();
            e.write(&mut st, &p, V::Seq(Rc::new(s2)));
            one(st, V::unit())
        }
        _ => e.havoc(f, a, st, ctx, dty),
    }
}
fn m_splice(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let Some((p, V::Buf { c, off, len })) = vecp(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let Some(Ix::Range(x, y)) = ix(e, &mut st, aty(e, f, 1), &a[1], &len) else { return e.havoc(f, a, st, ctx, dty) };
    let k = in_range(&Ix::Range(x.clone(), y.clone()), &len);
    rules::panic_ob(e, &st, &k, "range", &format!("range {}..{} of {}", show(&x), show(&y), show(&len)));
    if !st.assume(&k) {
        return vec![];
    }
    let src = if a.len() > 2 { dig_slice(e, &mut st, &a[2]) } else { Some((mkc(Cont::Zero), Lin::c(0), Lin::c(0))) };
    let Some((sc, so, n)) = src else { return e.havoc(f, a, st, ctx, dty) };
    let tail = mkc(Cont::Patch { base: c, off: off.add(&x).add(&n), len: len.sub(&y), src: c, soff: off.add(&y) });
    let nc = if n.is_c() == Some(0) { tail } else { mkc(Cont::Patch { base: tail, off: off.add(&x), len: n.clone(), src: sc, soff: so }) };
    let nc = if patch_depth(nc) > 24 { mkc(Cont::Fresh(hash(&("splice", nc)), true)) } else { nc };
    let nl = len.sub(&y.sub(&x)).add(&n);
    if a.len() > 2 {
        crate::props::on_grow(e, &mut st, &nl);
    }
    e.write(&mut st, &p, V::Buf { c: nc, off, len: nl });
    one(st, V::Tok("drain", hash(&(ctx, "drain"))))
}
fn m_try_reserve(e: &Eng, _f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let n = int(e, &mut st, &a[1]);
    let _ = n;
    let ok = e.ok(dty, V::unit());
    let er = e.err(dty, V::Tok("reserve", hash(&(ctx, "rsv"))));
    vec![(st.clone(), ok), (st, er)]
}
fn m_unit(_e: &Eng, _f: usize, _a: Vec<V>, st: State, _ctx: u64, _dty: usize) -> Out {
    one(st, V::unit())
}
fn m_vec_into_iter(e: &Eng, _f: usize, a: Vec<V>, mut st: State, ctx: u64, _dty: usize) -> Out {
    // By value: the elements live on in a cell of their own.
    let cell = hash(&(ctx, "intoiter"));
    let n = e.vlen(&mut st, &a[0]);
    st.set(cell, a[0].clone());
    one(st, V::agg(vec![V::MSlice(Rc::new(Place::cell(cell)), Lin::c(0), n.clone()), V::int(0), V::Int(n)]))
}
fn m_val_iter_next(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let Some(p) = tgt(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let it = e.read(&mut st, &p);
    let Some((s, i, n)) = it_parts(&it) else { return e.havoc(f, a, st, ctx, dty) };
    let (yes, no) = fork(&st, &lt(&i, &n));
    let mut out = vec![];
    if let Some(mut y) = yes {
        e.write(&mut y, &p, V::agg(vec![s.clone(), V::Int(i.addk(1)), V::Int(n.clone())]));
        let q = sl(e, &mut y, &s);
        for (mut s2, r) in elem_ref(e, y, &q, &i, false, ctx) {
            let w = val(e, &mut s2, &r);
            let v = e.some(dty, w);
            out.push((s2, v));
        }
    }
    if let Some(x) = no {
        out.push((x, e.none(dty)));
    }
    out
}
fn m_clone(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let w = match &a[0] {
        V::Ref(p) => e.read(&mut st, p),
        v => v.clone(),
    };
    match w {
        V::Shared(c) => {
            st.set(hash(&(c, "cl")), V::Bool(Cond::T));
            one(st, V::Shared(c))
        }
        V::Uninit | V::Top(..) => e.havoc(f, a, st, ctx, dty),
        w => one(st, w),
    }
}

// ---- maps ---------------------------------------------------------------------

fn m_map_new(_e: &Eng, _f: usize, _a: Vec<V>, st: State, ctx: u64, _dty: usize) -> Out {
    one(st, V::Map(Rc::new(MapV { rest: vec![], key: hash(&(ctx, "map")) })))
}
fn m_map_insert(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    match vecp(e, &mut st, &a[0]) {
        Some((p, V::Map(m))) => {
            let mut m2 = (*m).clone();
            let pair = V::agg(vec![a[1].clone(), a[2].clone()]);
            let alt = alt_of(&st.facts, &idx_none(), &pair, None);
            add_alt(&mut m2.rest, alt, hash(&(ctx, "ins")), &st.facts);
            rules::on_insert(e, &mut st, &a[1], &a[2]);
            e.write(&mut st, &p, V::Map(Rc::new(m2)));
            // The replaced value, if any, is not modelled.
            let k = sym_imp(hash(&(ctx, "old")), Some(0), Some(1));
            let mut s2 = st.clone();
            let mut out = vec![];
            if st.assume(&eq(&k, &Lin::c(0))) {
                out.push((st, e.none(dty)));
            }
            if s2.assume(&eq(&k, &Lin::c(1))) {
                let v = e.sym_d(&mut s2, e.pty(dty, "Some", 0), hash(&(ctx, "oldv")), 2, true);
                let v = e.some(dty, v);
                out.push((s2, v));
            }
            if out.len() == 2 {
                // Callers ignore it: keep one outcome.
                let (s, _) = out.pop().unwrap();
                let key = e.sym_d(&mut s.clone(), dty, hash(&(ctx, "oldr")), 2, true);
                return one(s, key);
            }
            out
        }
        _ => e.havoc(f, a, st, ctx, dty),
    }
}
fn idx_none() -> Lin {
    sym_imp(hash(&"noidx"), Some(0), Some(umax(63)))
}
fn m_map_get(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let Some((_, V::Map(m))) = vecp(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let k = int(e, &mut st, &a[1]);
    let mut out = vec![];
    for (j, alt) in m.rest.iter().enumerate() {
        let mut s = st.clone();
        let (v, ok) = e.instance(&mut s, alt, None, hash(&(ctx, j)));
        if !ok {
            continue;
        }
        let V::Agg(kv) = v else { continue };
        let kk = e.int(&s, &kv[0], 1);
        if !s.assume(&eq(&kk, &k)) {
            continue;
        }
        let cell = hash(&(ctx, "mv", j));
        s.set(cell, kv[1].clone());
        let r = e.some(dty, V::Ref(Rc::new(Place::cell(cell))));
        for s in rules::on_map(e, s, &k, Some(&kv[1])) {
            out.push((s, r.clone()));
        }
    }
    for s in rules::on_map(e, st, &k, None) {
        out.push((s, e.none(dty)));
    }
    out
}
fn m_map_remove(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    match vecp(e, &mut st, &a[0]) {
        Some((_, V::Map(_))) => {
            let v = e.sym_d(&mut st, dty, hash(&(ctx, "rm")), 2, true);
            one(st, v)
        }
        _ => e.havoc(f, a, st, ctx, dty),
    }
}
/// extend(&other) and iter/next over maps.
fn m_map_extend(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let d = vecp(e, &mut st, &a[0]);
    let s = val(e, &mut st, &a[1]);
    let s = match s {
        V::Agg(x) => x.first().map(|y| val(e, &mut st, y)).unwrap_or(V::Uninit),
        s => s,
    };
    match (d, s) {
        (Some((p, V::Map(m))), V::Map(o)) => {
            let mut m2 = (*m).clone();
            for x in &o.rest {
                add_alt(&mut m2.rest, x.clone(), hash(&(ctx, "ext")), &st.facts);
            }
            e.write(&mut st, &p, V::Map(Rc::new(m2)));
            one(st, V::unit())
        }
        _ => e.havoc(f, a, st, ctx, dty),
    }
}
fn m_map_iter(_e: &Eng, _f: usize, a: Vec<V>, st: State, _ctx: u64, _dty: usize) -> Out {
    let v = V::agg(vec![a[0].clone(), V::unit(), V::unit(), V::unit(), V::unit()]);
    one(st, v)
}
fn m_map_iter_next(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let V::Agg(q) = val(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let Some((_, V::Map(m))) = vecp(e, &mut st, &q[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let mut out = vec![];
    for (j, alt) in m.rest.iter().enumerate() {
        let mut s = st.clone();
        let (v, ok) = e.instance(&mut s, alt, None, hash(&(ctx, j)));
        if !ok {
            continue;
        }
        let V::Agg(kv) = v else { continue };
        let (c0, c1) = (hash(&(ctx, "mk", j)), hash(&(ctx, "mv", j)));
        s.set(c0, kv[0].clone());
        s.set(c1, kv[1].clone());
        let r = V::agg(vec![V::Ref(Rc::new(Place::cell(c0))), V::Ref(Rc::new(Place::cell(c1)))]);
        let r = e.some(dty, r);
        out.push((s, r));
    }
    out.push((st, e.none(dty)));
    out
}

// ---- shared and interior-mutable --------------------------------------------------

fn m_rc_new(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, _dty: usize) -> Out {
    let c = hash(&(ctx, "rc"));
    if let Some(t) = e.p.fns[f].sig.0.first() {
        if matches!(e.ty(*t), TyK::Adt { path, .. } if path.starts_with("ext4_view")) {
            *e.fs.borrow_mut() = Some((*t, c));
            e.heap.borrow_mut().insert(c);
        }
    }
    st.set(c, a[0].clone());
    one(st, V::Shared(c))
}
fn m_rc_get_mut(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let w = match &a[0] {
        V::Ref(p) => e.read(&mut st, p),
        v => v.clone(),
    };
    let V::Shared(c) = w else { return e.havoc(f, a, st, ctx, dty) };
    let v = e.some(dty, V::Ref(Rc::new(Place::cell(c))));
    if st.get(hash(&(c, "cl"))) == V::Uninit {
        return one(st, v);
    }
    // A clone may still be alive.
    let mut s2 = st.clone();
    s2.imp = true;
    vec![(st, v), (s2, e.none(dty))]
}
fn m_deref(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    match tgt(e, &mut st, &a[0]) {
        Some(p) => {
            if let TyK::Slice(_) | TyK::Str = e.ty(pointee(e, dty)) {
                return m_as_slice(e, f, a, st, ctx, dty);
            }
            let p = match e.read(&mut st, &p) {
                V::Boxed(_) => p.with(P::Box),
                _ => p,
            };
            one(st, V::Ref(Rc::new(p)))
        }
        None => e.havoc(f, a, st, ctx, dty),
    }
}
fn m_refcell_new(_e: &Eng, _f: usize, a: Vec<V>, st: State, _ctx: u64, _dty: usize) -> Out {
    let v = V::Cell { v: Rc::new(a[0].clone()), borrowed: Cond::F };
    one(st, v)
}
fn m_borrow_mut(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let Some(p) = tgt(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let V::Cell { v, borrowed } = e.read(&mut st, &p) else { return e.havoc(f, a, st, ctx, dty) };
    let c = borrowed.not();
    rules::panic_ob(e, &st, &c, "borrow_mut", "already borrowed");
    if !st.assume(&c) {
        return vec![];
    }
    e.write(&mut st, &p, V::Cell { v, borrowed: Cond::T });
    one(st, V::Guard(Rc::new(p)))
}
fn m_box_new(_e: &Eng, _f: usize, a: Vec<V>, st: State, _ctx: u64, _dty: usize) -> Out {
    let v = match &a[0] {
        V::Tok(t, k) => V::Tok(t, *k),
        v => V::Boxed(Rc::new(v.clone())),
    };
    one(st, v)
}
fn m_box_uninit(_e: &Eng, _f: usize, _a: Vec<V>, st: State, _ctx: u64, _dty: usize) -> Out {
    one(st, V::Boxed(Rc::new(V::Uninit)))
}
fn m_box_into_vec(e: &Eng, f: usize, a: Vec<V>, st: State, ctx: u64, dty: usize) -> Out {
    fn dig(v: &V) -> Option<V> {
        match v {
            V::Seq(_) | V::Buf { .. } => Some(v.clone()),
            V::Boxed(b) => dig(b),
            V::Agg(a) => a.iter().find_map(dig),
            _ => None,
        }
    }
    match dig(&a[0]) {
        Some(v) => one(st, v),
        None => e.havoc(f, a, st, ctx, dty),
    }
}
fn m_replace(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let V::Ref(p) = &a[0] else { return e.havoc(f, a, st, ctx, dty) };
    let old = e.read(&mut st, p);
    e.write(&mut st, p, a[1].clone());
    one(st, old)
}
fn m_swap(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let (V::Ref(p), V::Ref(q)) = (&a[0], &a[1]) else { return e.havoc(f, a, st, ctx, dty) };
    let (x, y) = (e.read(&mut st, p), e.read(&mut st, q));
    e.write(&mut st, p, y);
    e.write(&mut st, q, x);
    one(st, V::unit())
}
fn m_size_of(e: &Eng, f: usize, _a: Vec<V>, st: State, _ctx: u64, _dty: usize) -> Out {
    let t = e.p.fns[f].targs.first().copied().unwrap_or(0);
    let n = e.p.tys[t].size;
    one(st, V::int(n as i128))
}
fn m_drop(e: &Eng, _f: usize, a: Vec<V>, mut st: State, _ctx: u64, _dty: usize) -> Out {
    for v in &a {
        e.drop_v(&mut st, v);
    }
    one(st, V::unit())
}

// ---- numbers -----------------------------------------------------------------

fn m_num(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let path = &e.p.fns[f].path;
    let name = path.rsplit("::").next().unwrap_or("");
    // The type's own name: core::num::<impl u32>::...
    let tn = path.split("<impl ").nth(1).and_then(|x| x.split('>').next()).unwrap_or("u64");
    let ty = e.tyids.get(tn).copied().unwrap_or(0);
    let (w, signed) = e.bits(ty);
    match name {
        "checked_add" | "checked_sub" | "checked_mul" | "checked_div" | "checked_rem" | "checked_pow" | "checked_add_signed" | "checked_next_multiple_of" | "checked_shl" | "checked_shr" => {
            let (x, y) = (int(e, &mut st, &a[0]), int(e, &mut st, &a[1]));
            let (l, c) = match name {
                "checked_add" | "checked_add_signed" => {
                    let l = x.add(&y);
                    (l.clone(), e.range_cond(&l, ty))
                }
                "checked_sub" => {
                    let l = x.sub(&y);
                    (l.clone(), e.range_cond(&l, ty))
                }
                "checked_mul" => {
                    let l = mul(&x, &y);
                    (l.clone(), e.range_cond(&l, ty))
                }
                "checked_pow" => {
                    if x.is_c() == Some(2) {
                        (pow2(&y), lt(&y, &Lin::c(w as i128)))
                    } else {
                        return e.havoc(f, a, st, ctx, dty);
                    }
                }
                "checked_shl" => (e.wrap(&mul(&x, &pow2(&y)), ty), lt(&y, &Lin::c(w as i128))),
                "checked_shr" => (e.arith(&st, "Shr", &x, &y, ty), lt(&y, &Lin::c(w as i128))),
                "checked_next_multiple_of" => return e.havoc(f, a, st, ctx, dty),
                _ => {
                    let c = Cond::fact(Fact::Ne(y.clone()));
                    let (yes, no) = fork(&st, &c);
                    let mut out = vec![];
                    if let Some(s) = yes {
                        let l = e.arith(&s, if name == "checked_div" { "Div" } else { "Rem" }, &x, &y, ty);
                        out.push((s, e.some(dty, V::Int(l))));
                    }
                    if let Some(s) = no {
                        out.push((s, e.none(dty)));
                    }
                    return out;
                }
            };
            // Overflow in one direction only for unsigned operands.
            let (yes, no) = fork(&st, &c);
            let mut out = vec![];
            if let Some(s) = yes {
                out.push((s, e.some(dty, V::Int(l.clone()))));
            }
            if let Some(mut s) = no {
                if let (false, Cond::And(v)) = (signed, &c) {
                    // not (A and B): one of the two is impossible for unsigned operands.
                    let d = if matches!(name, "checked_sub") { v[0].not() } else { v[v.len() - 1].not() };
                    if name != "checked_add_signed" && !s.assume(&d) {
                        return out;
                    }
                }
                out.push((s, e.none(dty)));
            }
            out
        }
        "wrapping_add" | "wrapping_sub" | "wrapping_mul" => {
            let (x, y) = (int(e, &mut st, &a[0]), int(e, &mut st, &a[1]));
            let l = match name {
                "wrapping_add" => x.add(&y),
                "wrapping_sub" => x.sub(&y),
                _ => mul(&x, &y),
            };
            let l = e.wrapped(&st, l, ty);
            one(st, V::Int(l))
        }
        "wrapping_shl" | "wrapping_shr" | "unchecked_shl" | "unchecked_shr" => {
            let (x, y) = (int(e, &mut st, &a[0]), int(e, &mut st, &a[1]));
            let l = e.arith(&st, if name.ends_with("shl") { "Shl" } else { "Shr" }, &x, &y, ty);
            let l = e.wrapped(&st, l, ty);
            one(st, V::Int(l))
        }
        "overflowing_add" | "overflowing_sub" | "overflowing_mul" => {
            let (x, y) = (int(e, &mut st, &a[0]), int(e, &mut st, &a[1]));
            let l = match name {
                "overflowing_add" => x.add(&y),
                "overflowing_sub" => x.sub(&y),
                _ => mul(&x, &y),
            };
            let o = e.range_cond(&l, ty).not();
            let l = e.wrapped(&st, l, ty);
            one(st, V::agg(vec![V::Int(l), V::Bool(o)]))
        }
        "saturating_add" | "saturating_sub" | "saturating_mul" if !signed => {
            let (x, y) = (int(e, &mut st, &a[0]), int(e, &mut st, &a[1]));
            let l = match name {
                "saturating_add" => min(&x.add(&y), &Lin::c(umax(w))),
                "saturating_sub" => max(&x.sub(&y), &Lin::c(0)),
                _ => min(&mul(&x, &y), &Lin::c(umax(w))),
            };
            one(st, V::Int(l))
        }
        "div_ceil" if !signed => {
            let (x, y) = (int(e, &mut st, &a[0]), int(e, &mut st, &a[1]));
            let c = Cond::fact(Fact::Ge(y.addk(-1)));
            rules::panic_ob(e, &st, &c, "division by zero", &format!("div_ceil by {}", show(&y)));
            if !st.assume(&c) {
                return vec![];
            }
            let l = div_l(&x.add(&y).addk(-1), &y);
            one(st, V::Int(l))
        }
        "from_le_bytes" | "from_be_bytes" => {
            if let V::Buf { c, off, .. } = &a[0] {
                let l = e.load(&st, *c, off, (w / 8) as u8, name == "from_be_bytes");
                let l = if signed { sext(&l, w) } else { l };
                return one(st, V::Int(l));
            }
            e.havoc(f, a, st, ctx, dty)
        }
        "to_le_bytes" | "to_be_bytes" | "to_ne_bytes" => {
            let l = int(e, &mut st, &a[0]);
            one(st, V::Buf { c: mkc(Cont::Int(l, (w / 8) as u8, name == "to_be_bytes")), off: Lin::c(0), len: Lin::c((w / 8) as i128) })
        }
        "reverse_bits" | "swap_bytes" | "count_ones" | "leading_zeros" | "trailing_zeros" | "is_power_of_two" => {
            let l = int(e, &mut st, &a[0]);
            let tag: &'static str = match name {
                "reverse_bits" => "rbit",
                "swap_bytes" => "bswap",
                "count_ones" => "ctpop",
                "leading_zeros" => "clz",
                "trailing_zeros" => "ctz",
                _ => "isp2",
            };
            let hi = match name {
                "reverse_bits" | "swap_bytes" => umax(w),
                "is_power_of_two" => 1,
                _ => w as i128,
            };
            let l = fun(tag, vec![Arg::L(l)], Some(0), Some(hi));
            if name == "is_power_of_two" {
                return one(st, V::Bool(Cond::fact(Fact::Ge(l.addk(-1)))));
            }
            one(st, V::Int(l))
        }
        "rotate_left" | "rotate_right" => {
            let (x, y) = (int(e, &mut st, &a[0]), int(e, &mut st, &a[1]));
            let l = fun("rot", vec![Arg::L(x), Arg::L(y), Arg::L(Lin::c((name == "rotate_left") as i128))], Some(0), Some(umax(w)));
            one(st, V::Int(l))
        }
        "abs_diff" => {
            let (x, y) = (int(e, &mut st, &a[0]), int(e, &mut st, &a[1]));
            let l = max(&x.sub(&y), &y.sub(&x));
            one(st, V::Int(l))
        }
        "pow" => {
            let (x, y) = (int(e, &mut st, &a[0]), int(e, &mut st, &a[1]));
            if x.is_c() == Some(2) {
                let c = lt(&y, &Lin::c(w as i128));
                rules::panic_ob(e, &st, &c, "Mul", "pow overflow");
                if !st.assume(&c) {
                    return vec![];
                }
                return one(st, V::Int(pow2(&y)));
            }
            e.havoc(f, a, st, ctx, dty)
        }
        _ => {
            if let Some(b) = &e.p.fns[f].body {
                return e.exec_fn(f, b, a, st, ctx);
            }
            e.havoc(f, a, st, ctx, dty)
        }
    }
}
fn m_nonzero_new(e: &Eng, _f: usize, a: Vec<V>, mut st: State, _ctx: u64, dty: usize) -> Out {
    let l = int(e, &mut st, &a[0]);
    let (yes, no) = fork(&st, &Cond::fact(Fact::Ne(l.clone())));
    let mut out = vec![];
    if let Some(s) = yes {
        out.push((s, e.some(dty, V::Int(l))));
    }
    if let Some(s) = no {
        out.push((s, e.none(dty)));
    }
    out
}
fn m_intval(e: &Eng, _f: usize, a: Vec<V>, mut st: State, _ctx: u64, _dty: usize) -> Out {
    let w = val(e, &mut st, &a[0]);
    one(st, w)
}
fn m_nz_div(e: &Eng, f: usize, a: Vec<V>, mut st: State, _ctx: u64, _dty: usize) -> Out {
    let (x, y) = (int(e, &mut st, &a[0]), int(e, &mut st, &a[1]));
    st.assume(&ge(&y, &Lin::c(1)));
    let o = if e.p.fns[f].path.ends_with("::div") { "Div" } else { "Rem" };
    let ty = aty(e, f, 0);
    let l = e.arith(&st, o, &x, &y, ty);
    one(st, V::Int(l))
}
fn m_minmax(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    if !matches!(e.ty(dty), TyK::Int { .. }) {
        if let Some(b) = &e.p.fns[f].body {
            return e.exec_fn(f, b, a, st, ctx);
        }
    }
    let (x, y) = (int(e, &mut st, &a[0]), int(e, &mut st, &a[1]));
    let mx = e.p.fns[f].path.ends_with("max");
    let c = ge(&x, &y);
    let l = if st.holds(&c) {
        if mx { x } else { y }
    } else if st.holds(&c.not()) {
        if mx { y } else { x }
    } else if mx {
        max(&x, &y)
    } else {
        min(&x, &y)
    };
    one(st, V::Int(l))
}

// ---- arrays from slices ------------------------------------------------------------

fn m_array_from_slice(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    // Result<[T; N], _> or Result<&[T; N], _>.
    let okt = e.pty(dty, "Ok", 0);
    let (at, byref) = match e.ty(okt) {
        TyK::Ref(t, _) => (*t, true),
        _ => (okt, false),
    };
    let TyK::Array(_, n) = e.ty(at) else { return e.havoc(f, a, st, ctx, dty) };
    let n = Lin::c(*n as i128);
    let Some((c, off, len)) = bytes(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let (yes, no) = fork(&st, &eq(&len, &n));
    let mut out = vec![];
    if let Some(mut s) = yes {
        let b = V::Buf { c, off, len: n };
        let v = if byref {
            let cell = hash(&(ctx, "arr"));
            s.set(cell, b);
            V::Ref(Rc::new(Place::cell(cell)))
        } else {
            b
        };
        let v = e.ok(dty, v);
        out.push((s, v));
    }
    if let Some(s) = no {
        out.push((s, e.err(dty, V::Tok("fromslice", 0))));
    }
    out
}

// ---- text ---------------------------------------------------------------------

fn m_from_utf8(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let Some((c, off, len)) = bytes(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
    let q = fun("utf8", vec![Arg::C(c), Arg::L(off.clone()), Arg::L(len.clone())], Some(0), Some(1));
    let owned = matches!(e.ty(e.pty(dty, "Ok", 0)), TyK::Adt { .. });
    let (yes, no) = fork(&st, &Cond::fact(Fact::Ge(q.addk(-1))));
    let mut out = vec![];
    if let Some(s) = yes {
        let v = if owned { V::Buf { c, off, len } } else { V::View { c, off, len } };
        out.push((s, e.ok(dty, v)));
    }
    if let Some(s) = no {
        out.push((s, e.err(dty, V::Tok("utf8err", hash(&(ctx, "u"))))));
    }
    out
}
/// Formatting: no effect on the analysed state; may fail.
fn m_fmt(e: &Eng, _f: usize, _a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let v = match e.ty(dty) {
        TyK::Tuple(t) if t.is_empty() => V::unit(),
        TyK::Adt { kind: AdtK::Enum, .. } | TyK::Bool | TyK::Int { .. } => e.sym_v(&mut st, dty, hash(&(ctx, "fmt"))),
        TyK::Ref(_, true) => V::Tok("fmt", hash(&(ctx, "fmt"))),
        TyK::Adt { path, .. } if path == "std::string::String" => e.sym_v(&mut st, dty, hash(&(ctx, "fmt"))),
        _ => V::Tok("fmt", hash(&(ctx, "fmt"))),
    };
    one(st, v)
}

// ---- checksum -------------------------------------------------------------------

fn m_crc(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let path = &e.p.fns[f].path;
    match path.rsplit("::").next().unwrap_or("") {
        "digest_with_initial" => {
            let l = int(e, &mut st, &a[1]);
            one(st, V::Int(fun("crcI", vec![Arg::L(l)], Some(0), Some(umax(32)))))
        }
        "clone" => {
            let d = val(e, &mut st, &a[0]);
            one(st, d)
        }
        "digest" => one(st, V::Int(fun("crcI", vec![Arg::L(Lin::c(0))], Some(0), Some(umax(32))))),
        "update" => {
            let Some(p) = tgt(e, &mut st, &a[0]) else { return e.havoc(f, a, st, ctx, dty) };
            let d = e.read(&mut st, &p);
            let d = e.int(&st, &d, 8);
            let Some((c, off, len)) = bytes(e, &mut st, &a[1]) else { return e.havoc(f, a, st, ctx, dty) };
            let l = crc_update(e, &st, d, c, &off, &len);
            e.write(&mut st, &p, V::Int(l));
            one(st, V::unit())
        }
        "finalize" => {
            let d = val(e, &mut st, &a[0]);
            let d = e.int(&st, &d, 8);
            one(st, V::Int(fun("crcF", vec![Arg::L(d)], Some(0), Some(umax(32)))))
        }
        _ => e.havoc(f, a, st, ctx, dty),
    }
}
pub fn crc_update(e: &Eng, st: &State, d: Lin, c: Cid, off: &Lin, len: &Lin) -> Lin {
    let (c, off) = e.resolve(st, c, off.clone(), len);
    fun("crcU", vec![Arg::L(d), Arg::C(c), Arg::L(off), Arg::L(len.clone())], Some(0), Some(umax(32)))
}

// ---- environment -----------------------------------------------------------------

fn io_err(st: &mut State) -> V {
    st.set(G_IO, V::int(1));
    V::Tok("ioerr", 0)
}
fn m_reader(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let start = int(e, &mut st, &a[1]);
    let Sl::Mem(p, o, len, true) = sl(e, &mut st, &a[2]) else { if std::env::var("VF_UNK").is_ok() { eprintln!("reader buf {} = {}", a[2].show(), match &a[2] { V::MSlice(p, ..) | V::Ref(p) => e.read(&mut st, p).show(), _ => String::new() }); } return e.havoc(f, a, st, ctx, dty) };
    if !rules::on_read(e, &mut st, &start, &len) {
        return vec![];
    }
    let mut bad = st.clone();
    e.store(&mut st, &p, &o, &len, mkc(Cont::Dev), &start);
    e.store(&mut bad, &p, &o, &len, mkc(Cont::Fresh(hash(&(ctx, "garbage")), false)), &Lin::c(0));
    if e.on("C04") {
        st.set(crate::props::G_RD, V::agg(vec![V::Int(start.clone()), V::int(0), V::Buf { c: mkc(Cont::Dev), off: start.clone(), len: len.clone() }]));
    }
    let er = io_err(&mut bad);
    vec![(st, e.ok(dty, V::unit())), (bad, e.err(dty, er))]
}
fn m_file_open(e: &Eng, _f: usize, _a: Vec<V>, st: State, ctx: u64, dty: usize) -> Out {
    let mut bad = st.clone();
    let er = io_err(&mut bad);
    let ok = e.ok(dty, V::Tok("file", hash(&(ctx, "file"))));
    vec![(st, ok), (bad, e.err(dty, er))]
}
fn m_file_io(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let mut bad = st.clone();
    let er = io_err(&mut bad);
    let okt = e.pty(dty, "Ok", 0);
    if a.len() > 1 {
        if let Sl::Mem(p, o, len, true) = sl(e, &mut st, &a[1]) {
            if e.p.fns[f].path.ends_with("read_exact") {
                // The content at the position sought to.
                let pos = match st.get(hash(&"filepos")) {
                    V::Int(l) => l,
                    _ => sym_imp(hash(&(ctx, "pos")), Some(0), None),
                };
                e.store(&mut st, &p, &o, &len, mkc(Cont::Dev), &pos);
                e.store(&mut bad, &p, &o, &len, mkc(Cont::Fresh(hash(&(ctx, "garbage")), false)), &Lin::c(0));
                return vec![(st, e.ok(dty, V::unit())), (bad, e.err(dty, er))];
            }
        }
        if e.p.fns[f].path.ends_with("seek") {
            if let V::Enum(en) = &a[1] {
                if en.tag.is_c() == Some(0) {
                    if let Some(V::Int(l)) = en.pay.get(&0).and_then(|p| p.vals.first()) {
                        st.set(hash(&"filepos"), V::Int(l.clone()));
                    }
                } else {
                    st.del(hash(&"filepos"));
                }
            }
        }
    }
    let v = e.sym_v(&mut st, okt, hash(&(ctx, "io")));
    vec![(st, e.ok(dty, v)), (bad, e.err(dty, er))]
}
fn m_nondet(e: &Eng, _f: usize, _a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let v = e.sym_v(&mut st, dty, hash(&(ctx, "nd")));
    one(st, v)
}
/// Opaque error objects.
fn m_tok_err(_e: &Eng, _f: usize, a: Vec<V>, st: State, _ctx: u64, _dty: usize) -> Out {
    // The wrapped error stays visible as the payload.
    let v = a.last().cloned().unwrap_or(V::unit());
    one(st, v)
}
fn m_io_other(_e: &Eng, _f: usize, a: Vec<V>, st: State, _ctx: u64, _dty: usize) -> Out {
    let v = a.last().cloned().unwrap_or(V::unit());
    one(st, V::agg(vec![V::int(-1), v]))
}
fn m_io_from_kind(e: &Eng, _f: usize, a: Vec<V>, mut st: State, _ctx: u64, _dty: usize) -> Out {
    let k = int(e, &mut st, &a[0]);
    one(st, V::agg(vec![V::Int(k), V::unit()]))
}
fn m_intrinsic(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let n = e.p.fns[f].intr.as_str();
    match n {
        "size_of" | "size_of_val" => m_size_of(e, f, a, st, ctx, dty),
        "cold_path" | "assert_inhabited" | "assert_zero_valid" | "black_box" => one(st, V::unit()),
        "likely" | "unlikely" | "black_box_id" | "three_way_compare_id" => m_id(e, f, a, st, ctx, dty),
        "assume" => {
            let c = e.bool_(&a[0], ctx);
            if !st.assume(&c) {
                return vec![];
            }
            one(st, V::unit())
        }
        "saturating_add" => {
            let (w, s) = e.bits(dty);
            if s {
                return e.havoc(f, a, st, ctx, dty);
            }
            let l = min(&e.int(&st, &a[0], 1).add(&e.int(&st, &a[1], 2)), &Lin::c(umax(w)));
            one(st, V::Int(l))
        }
        "saturating_sub" => {
            let l = max(&e.int(&st, &a[0], 1).sub(&e.int(&st, &a[1], 2)), &Lin::c(0));
            one(st, V::Int(l))
        }
        "wrapping_add" | "wrapping_sub" | "wrapping_mul" => {
            let (x, y) = (e.int(&st, &a[0], 1), e.int(&st, &a[1], 2));
            let l = match n {
                "wrapping_add" => x.add(&y),
                "wrapping_sub" => x.sub(&y),
                _ => mul(&x, &y),
            };
            let l = e.wrapped(&st, l, dty);
            one(st, V::Int(l))
        }
        "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => {
            let l = e.int(&st, &a[0], 1);
            let t = e.p.fns[f].targs.first().copied().unwrap_or(dty);
            let (w, _) = e.bits(t);
            let (tag, hi): (&'static str, i128) = match n {
                "ctpop" => ("ctpop", w as i128),
                "ctlz" => ("clz", w as i128),
                "cttz" => ("ctz", w as i128),
                "bswap" => ("bswap", umax(w)),
                _ => ("rbit", umax(w)),
            };
            one(st, V::Int(fun(tag, vec![Arg::L(l)], Some(0), Some(hi))))
        }
        "rotate_left" | "rotate_right" => {
            let (x, y) = (e.int(&st, &a[0], 1), e.int(&st, &a[1], 2));
            let (w, _) = e.bits(dty);
            let l = fun("rot", vec![Arg::L(x), Arg::L(y), Arg::L(Lin::c((n == "rotate_left") as i128))], Some(0), Some(umax(w)));
            one(st, V::Int(l))
        }
        "transmute" | "transmute_unchecked" => {
            let v = a[0].clone();
            one(st, v)
        }
        "discriminant_value" => {
            let v = val(e, &mut st, &a[0]);
            let l = e.discr(&st, &v);
            one(st, V::Int(l))
        }
        "const_eval_select" => {
            if let Some(b) = &e.p.fns[f].body {
                return e.exec_fn(f, b, a, st, ctx);
            }
            e.havoc(f, a, st, ctx, dty)
        }
        _ => {
            if let Some(b) = &e.p.fns[f].body {
                return e.exec_fn(f, b, a, st, ctx);
            }
            e.havoc(f, a, st, ctx, dty)
        }
    }
}
// Option and Result helpers used everywhere (their MIR gives the same result).
fn m_unwrap(e: &Eng, f: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
    let V::Enum(en) = &a[0] else {
        if let V::Top(_, _, true) = &a[0] {
            st.imp = true;
        }
        if let Some(b) = &e.p.fns[f].body {
            return e.exec_fn(f, b, a, st, ctx);
        }
        return e.havoc(f, a, st, ctx, dty);
    };
    let good = if e.p.fns[f].path.contains("Option") { "Some" } else { "Ok" };
    let k = e.variant(en.ty, good);
    let c = eq(&en.tag, &Lin::c(k as i128));
    rules::panic_ob(e, &st, &c, "unwrap", &format!("{} is not {}", a[0].show().chars().take(200).collect::<String>(), good));
    if !st.assume(&c) {
        return vec![];
    }
    let cell = hash(&(ctx, "uw"));
    st.set(cell, a[0].clone());
    let p = Place::cell(cell);
    if !e.refine(&mut st, &p, k) {
        return vec![];
    }
    let v = e.read(&mut st, &p.with(P::V(k)).with(P::F(0)));
    st.del(cell);
    one(st, v)
}

pub fn find(e: &Eng, f: usize) -> Option<Model> {
    if let Some(m) = e.model_of.borrow().get(&f) {
        return *m;
    }
    let m = lookup(e, f);
    e.model_of.borrow_mut().insert(f, m);
    m
}
fn lookup(e: &Eng, f: usize) -> Option<Model> {
    let fun = &e.p.fns[f];
    let p = fun.path.as_str();
    if !fun.intr.is_empty() {
        return Some(m_intrinsic);
    }
    if fun.kind.starts_with("Virtual") {
        if p.starts_with("harness::Nondet::") {
            return Some(m_nondet);
        }
        if p == "ext4_view::Ext4Read::read" {
            return Some(m_reader);
        }
        if p.contains("Error::") || p.contains("fmt") {
            return Some(m_fmt);
        }
        return None;
    }
    if fun.krate == "ext4_view" || fun.krate == "harness" {
        return None;
    }
    // Formatting machinery.
    let fmtish = |t: &usize| {
        let n = &e.p.tys[*t].name;
        n.contains("std::fmt::") || n.contains("core::fmt::")
    };
    if fun.sig.0.iter().any(|t| fmtish(t)) || fmtish(&fun.sig.1) {
        return Some(m_fmt);
    }
    let last = p.rsplit("::").next().unwrap_or("");
    if p.starts_with("core::num::<impl ") {
        return match last {
            "checked_add" | "checked_sub" | "checked_mul" | "checked_div" | "checked_rem" | "checked_pow" | "checked_shl" | "checked_shr" | "checked_add_signed" | "wrapping_add" | "wrapping_sub" | "wrapping_mul"
            | "wrapping_shl" | "wrapping_shr" | "unchecked_shl" | "unchecked_shr" | "overflowing_add" | "overflowing_sub" | "overflowing_mul" | "saturating_add" | "saturating_sub" | "saturating_mul" | "div_ceil" | "from_le_bytes"
            | "from_be_bytes" | "to_le_bytes" | "to_be_bytes" | "to_ne_bytes" | "reverse_bits" | "swap_bytes" | "count_ones" | "leading_zeros" | "trailing_zeros" | "is_power_of_two" | "rotate_left" | "rotate_right" | "abs_diff" | "pow" => Some(m_num),
            _ => None,
        };
    }
    Some(match p {
        "std::num::NonZero::<T>::new" => m_nonzero_new,
        "std::num::NonZero::<T>::get" => m_intval,
        "std::option::Option::<T>::unwrap" | "std::option::Option::<T>::expect" | "std::result::Result::<T, E>::unwrap" | "std::result::Result::<T, E>::expect" => m_unwrap,
        "std::mem::size_of" => m_size_of,
        "std::mem::replace" => m_replace,
        "std::mem::swap" => m_swap,
        "std::mem::drop" => m_drop,
        "std::vec::from_elem" => m_from_elem,
        "std::vec::Vec::<T>::new" | "std::vec::Vec::<T>::with_capacity" | "std::string::String::new" | "std::collections::VecDeque::<T>::new" | "std::collections::VecDeque::<T>::with_capacity" => m_vec_new,
        "std::vec::Vec::<T, A>::push" | "std::collections::VecDeque::<T, A>::push_back" => m_push,
        "std::vec::Vec::<T, A>::pop" | "std::collections::VecDeque::<T, A>::pop_back" => m_pop,
        "std::collections::VecDeque::<T, A>::push_front" => m_push_front,
        "std::vec::Vec::<T, A>::clear" | "std::collections::VecDeque::<T, A>::clear" | "std::collections::BTreeMap::<K, V, A>::clear" => m_clear,
        "std::vec::Vec::<T, A>::truncate" | "std::collections::VecDeque::<T, A>::truncate" => m_truncate,
        "std::vec::Vec::<T, A>::resize" => m_resize,
        "std::vec::Vec::<T, A>::extend_from_slice" => m_extend,
        "std::vec::Vec::<T, A>::remove" | "std::collections::VecDeque::<T, A>::remove" => m_remove,
        "std::vec::Vec::<T, A>::drain" | "std::vec::Vec::<T, A>::splice" => m_splice,
        "std::vec::Vec::<T, A>::reserve" | "std::vec::Vec::<T, A>::reserve_exact" | "std::vec::Vec::<T, A>::shrink_to_fit" => m_unit,
        "std::vec::Vec::<T, A>::try_reserve_exact" | "std::vec::Vec::<T, A>::try_reserve" => m_try_reserve,
        "std::vec::Vec::<T, A>::len" | "std::collections::VecDeque::<T, A>::len" | "core::slice::<impl [T]>::len" | "core::str::<impl str>::len" | "std::string::String::len" => m_len,
        "std::vec::Vec::<T, A>::is_empty" | "std::collections::VecDeque::<T, A>::is_empty" | "core::slice::<impl [T]>::is_empty" | "core::str::<impl str>::is_empty" | "std::string::String::is_empty" => m_is_empty,
        "std::vec::Vec::<T, A>::as_slice" | "std::vec::Vec::<T, A>::as_mut_slice" | "std::array::<impl [T; N]>::as_slice" | "std::string::String::as_bytes" | "std::string::String::as_str" | "core::str::<impl str>::as_bytes" | "core::str::<impl std::convert::AsRef<[u8]> for str>::as_ref"
        | "<std::ffi::OsStr as std::os::unix::ffi::OsStrExt>::as_bytes" | "std::path::Path::as_os_str" | "<std::path::PathBuf as std::convert::AsRef<std::path::Path>>::as_ref" | "<[T] as std::convert::AsRef<[T]>>::as_ref"
        | "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref" | "<str as std::convert::AsRef<[u8]>>::as_ref" | "std::array::<impl std::convert::AsRef<[T]> for [T; N]>::as_ref"
        | "<std::vec::Vec<T, A> as std::ops::Deref>::deref" | "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut" | "<std::string::String as std::ops::Deref>::deref" | "<std::path::PathBuf as std::ops::Deref>::deref"
        | "<std::ffi::OsString as std::ops::Deref>::deref" | "<std::ffi::OsStr as std::os::unix::ffi::OsStrExt>::from_bytes" | "<std::path::Path as std::convert::AsRef<std::path::Path>>::as_ref" | "std::path::PathBuf::as_path" | "std::path::Path::new"
        | "<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref" => m_as_slice,
        "std::vec::Vec::<T, A>::into_boxed_slice" | "std::string::String::into_bytes" | "<std::ffi::OsString as std::os::unix::ffi::OsStringExt>::from_vec" | "<std::ffi::OsString as std::os::unix::ffi::OsStringExt>::into_vec"
        | "<std::path::PathBuf as std::convert::From<std::ffi::OsString>>::from" | "std::path::PathBuf::into_os_string" | "<std::collections::VecDeque<T, A> as std::convert::From<std::vec::Vec<T, A>>>::from"
        | "<std::ffi::OsString as std::convert::From<std::path::PathBuf>>::from" => m_id,
        "std::slice::<impl [T]>::to_vec" | "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned" | "<std::vec::Vec<T> as std::convert::From<&[T]>>::from" | "<std::boxed::Box<[T], A> as std::clone::Clone>::clone" => m_to_owned,
        "core::slice::<impl [T]>::copy_from_slice" | "core::slice::<impl [T]>::clone_from_slice" => m_copy_from_slice,
        "core::slice::<impl [T]>::fill" => m_fill,
        "core::slice::<impl [T]>::get" | "core::slice::<impl [T]>::get_mut" | "std::collections::VecDeque::<T, A>::get" | "std::collections::VecDeque::<T, A>::get_mut" => m_get,
        "core::slice::<impl [T]>::first" | "core::slice::<impl [T]>::first_mut" | "std::collections::VecDeque::<T, A>::front" | "std::collections::VecDeque::<T, A>::front_mut" => m_first,
        "std::collections::VecDeque::<T, A>::back" | "std::collections::VecDeque::<T, A>::back_mut" | "core::slice::<impl [T]>::last" | "core::slice::<impl [T]>::last_mut" => m_last,
        "std::collections::VecDeque::<T, A>::pop_front" => m_pop_front,
        "core::slice::<impl [T]>::swap" | "std::collections::VecDeque::<T, A>::swap" => m_swap_at,
        "core::slice::<impl [T]>::split_at" | "core::slice::<impl [T]>::split_at_mut" => m_split_at,
        "std::collections::BTreeMap::<K, V, A>::contains_key" => m_map_contains,
        "core::slice::<impl [T]>::starts_with" | "core::slice::<impl [T]>::ends_with" => m_edge,
        "core::slice::<impl [T]>::contains" => m_contains,
        "core::slice::<impl [T]>::iter" | "core::slice::<impl [T]>::iter_mut" | "std::collections::VecDeque::<T, A>::iter" | "std::collections::VecDeque::<T, A>::iter_mut" | "<&'a std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter" | "<&'a mut std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter" | "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter" | "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter"
        | "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter" | "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter" => m_iter,
        "<std::slice::Iter<'a, T> as std::iter::Iterator>::next" | "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next" | "<std::collections::vec_deque::Iter<'a, T> as std::iter::Iterator>::next" | "<std::collections::vec_deque::IterMut<'a, T> as std::iter::Iterator>::next" => m_iter_next,
        "<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back" | "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back" | "<std::collections::vec_deque::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back" => m_iter_next_back,
        "<std::slice::Iter<'a, T> as std::iter::Iterator>::nth" => m_iter_nth,
        "std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next" => m_range_next,
        "std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back" => m_range_next_back,
        "std::ops::RangeInclusive::<Idx>::new" => m_rangei_new,
        "std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next" => m_rangei_next,
        "std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::RangeInclusive<A>>::next_back" => m_rangei_next_back,
        "std::iter::Iterator::position" | "std::iter::Iterator::find" | "std::iter::Iterator::any" | "std::iter::Iterator::all" | "<std::slice::Iter<'a, T> as std::iter::Iterator>::position"
        | "<std::slice::Iter<'a, T> as std::iter::Iterator>::any" | "<std::slice::Iter<'a, T> as std::iter::Iterator>::all" | "<std::slice::Iter<'a, T> as std::iter::Iterator>::find" | "<std::iter::Rev<I> as std::iter::Iterator>::find" => m_search,
        "core::slice::<impl [T]>::split" => m_split,
        "<std::slice::Split<'a, T, P> as std::iter::Iterator>::next" => m_split_next,
        "core::slice::<impl [T]>::chunks" => m_chunks,
        "<std::slice::Chunks<'a, T> as std::iter::Iterator>::next" => m_chunks_next,
        "<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter" | "std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter" => m_vec_into_iter,
        "<std::vec::IntoIter<T, A> as std::iter::Iterator>::next" | "<std::array::IntoIter<T, N> as std::iter::Iterator>::next" => m_val_iter_next,
        "<std::vec::Vec<T, A> as std::clone::Clone>::clone" | "<std::rc::Rc<T, A> as std::clone::Clone>::clone" | "std::array::<impl std::clone::Clone for [T; N]>::clone" | "<std::string::String as std::clone::Clone>::clone"
        | "<std::num::NonZero<T> as std::clone::Clone>::clone" => m_clone,
        "std::collections::BTreeMap::<K, V>::new" => m_map_new,
        "std::collections::BTreeMap::<K, V, A>::insert" => m_map_insert,
        "std::collections::BTreeMap::<K, V, A>::get" => m_map_get,
        "std::collections::BTreeMap::<K, V, A>::remove" => m_map_remove,
        "std::collections::BTreeMap::<K, V, A>::iter" => m_map_iter,
        "<std::collections::btree_map::Iter<'a, K, V> as std::iter::Iterator>::next" => m_map_iter_next,
        "std::rc::Rc::<T>::new" => m_rc_new,
        "std::rc::Rc::<T, A>::get_mut" => m_rc_get_mut,
        "<std::rc::Rc<T, A> as std::ops::Deref>::deref" | "<std::cell::RefMut<'_, T> as std::ops::DerefMut>::deref_mut" | "<std::cell::RefMut<'_, T> as std::ops::Deref>::deref" | "<std::cell::Ref<'_, T> as std::ops::Deref>::deref" => m_deref,
        "std::cell::RefCell::<T>::new" => m_refcell_new,
        "std::cell::RefCell::<T>::borrow_mut" | "std::cell::RefCell::<T>::borrow" => m_borrow_mut,
        "std::boxed::Box::<T>::new" => m_box_new,
        "std::boxed::Box::<T>::new_uninit" => m_box_uninit,
        "std::boxed::box_assume_init_into_vec_unsafe" => m_box_into_vec,
        "std::str::from_utf8" | "core::str::converts::from_utf8" | "std::string::String::from_utf8" => m_from_utf8,
        "std::fs::File::open" => m_file_open,
        "std::io::Read::read_exact" | "<std::fs::File as std::io::Seek>::seek" | "<std::fs::File as std::io::Read>::read_exact" => m_file_io,
        "alloc::io::error::<impl std::io::Error>::other" => m_io_other,
        "std::cmp::impls::<impl std::cmp::Ord for u32>::max" | "std::cmp::impls::<impl std::cmp::Ord for u64>::min" | "std::cmp::impls::<impl std::cmp::Ord for usize>::min" => m_minmax,
        _ => {
            if p.contains("Index<I>") && last == "index" || p.contains("IndexMut<I>") && last == "index_mut" || p.contains("VecDeque<T, A> as std::ops::Index<usize>") || p.contains("VecDeque<T, A> as std::ops::IndexMut<usize>") {
                m_index
            } else if p.starts_with("std::cmp::impls::<impl std::cmp::Ord for ") && (last == "min" || last == "max") {
                m_minmax
            } else if p.starts_with("core::num::nonzero::<impl std::ops::Div") || p.starts_with("core::num::nonzero::<impl std::ops::Rem") {
                m_nz_div
            } else if p.starts_with("crc::crc32::") || p.starts_with("<crc::Digest<") && last == "clone" {
                m_crc
            } else if p.contains("BTreeMap<K, V, A> as std::iter::Extend") {
                m_map_extend
            } else if p.contains("Vec<T, A> as std::iter::Extend") {
                m_extend
            } else if p.contains("TryFrom<&") && p.contains("[T; N]") && last == "try_from" {
                m_array_from_slice
            } else if last == "eq" && (p.contains("PartialEq<[U") || p.contains("PartialEq<&[U") || p.contains("PartialEq for [T]") || p.contains("PartialEq for str")) {
                m_eq
            } else if last == "ne" && (p.contains("PartialEq<[U") || p.contains("PartialEq<&[U")) {
                m_ne
            } else if p.contains("From<std::io::ErrorKind>") && p.contains("std::io::Error") {
                m_io_from_kind
            } else if p.contains("std::boxed::Box<dyn std::error::Error") {
                m_tok_err
            } else {
                return None;
            }
        }
    })
}
