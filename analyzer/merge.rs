//! Joins and loop-head generalisation: n-ary anti-unification of states. A
//! leaf that differs between the sources becomes a fresh symbol, unless it is
//! an affine function of one that exists already; facts survive if every
//! source entails them.
use crate::solve::*;
use crate::state::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub const IDX: u64 = 0x1d1d_1d1d;
pub fn idx_sym() -> Lin {
    sym(IDX, Some(0), Some(umax(63)))
}

#[derive(Clone)]
pub struct Phi {
    pub id: Id,
    pub path: u64,
    pub vals: Vec<Option<Lin>>,
}
pub struct CPhi {
    pub c: Cid,
    pub vals: Vec<Option<(Cid, Lin)>>,
}
/// What earlier rounds of a loop decided.
#[derive(Clone, Default)]
pub struct Tmpl {
    /// Leaves that are symbols of their own: path -> (symbol, multiplier, residue).
    pub own: HashMap<u64, (Id, i128, i128)>,
    pub cown: HashSet<u64>,
    /// Leaves that keep an expression.
    pub rel: HashMap<u64, Lin>,
    pub facts: BTreeSet<Fact>,
    /// Facts of enum payloads.
    pub pay: HashMap<u64, Vec<Fact>>,
}
pub struct Merge<'a> {
    pub n: usize,
    pub facts: Vec<Facts>,
    pub key: u64,
    pub looping: bool,
    pub entries: usize,
    pub phis: Vec<Phi>,
    pub cphis: Vec<CPhi>,
    pub prev: Option<&'a Tmpl>,
    pub next: Tmpl,
    pub changed: bool,
    pub entry_syms: Option<BTreeSet<Id>>,
    pub imp: bool,
    /// Sequence elements: only what the first source has can stay.
    pub alt: bool,
    /// Facts worth trying: lengths are not negative.
    pub hints: BTreeSet<Fact>,
    pub lens: Vec<Lin>,
    /// Bits every source decides, not all the same way.
    pub bits: Option<Rc<Vec<(Id, Vec<bool>)>>>,
    /// Summary inputs: the symbols that mean the same to every caller.
    pub sum: Option<Rc<HashSet<Id>>>,
    /// Symbols made before anything is merged.
    pub seeded: HashSet<u64>,
    stage: u8,
    /// Symbols of earlier rounds whose range has grown.
    renamed: HashMap<Id, Lin>,
    /// An expression of an earlier round's could not be used.
    relfail: bool,
}

thread_local! {
    /// Set if the program has 128-bit integers.
    pub static WIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
const LADDER: [i128; 3] = [1, u32::MAX as i128, u64::MAX as i128];
thread_local! {
    /// Are all the program's integers here unsigned?
    pub static UNSIGNED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// Constants the code compares with, as further bounds to try.
    pub static EXTRA: std::cell::RefCell<Vec<i128>> = const { std::cell::RefCell::new(vec![]) };
}
fn ladder() -> Vec<i128> {
    let mut v = EXTRA.with(|e| e.borrow().clone());
    v.extend(LADDER);
    v.sort();
    v
}

impl<'a> Merge<'a> {
    pub fn new(facts: Vec<Facts>, key: u64) -> Merge<'a> {
        Merge {
            n: facts.len(),
            facts,
            key,
            looping: false,
            entries: 0,
            phis: vec![],
            cphis: vec![],
            prev: None,
            next: Tmpl::default(),
            changed: false,
            entry_syms: None,
            imp: false,
            alt: false,
            hints: BTreeSet::new(),
            lens: vec![],
            bits: None,
            sum: None,
            seeded: HashSet::new(),
            stage: 0,
            renamed: HashMap::new(),
            relfail: false,
        }
    }
    /// The order in which leaves become symbols should not matter. Those an
    /// earlier round decided on come first, then those that differ by simple
    /// amounts, so that others can be written in their terms. Whether that
    /// makes a difference; if so, starts over with them.
    pub fn reorder(&mut self) -> bool {
        let forced = |p: &Phi| self.prev.is_some_and(|t| t.own.contains_key(&p.path));
        if std::mem::take(&mut self.relfail) && self.stage == 0 && self.phis.iter().any(forced) {
            self.stage = 1;
            let keep = self.phis.iter().map(forced).collect();
            self.restart(keep);
            return true;
        }
        if self.n < 2 || self.stage > 1 {
            return false;
        }
        let weight = |p: &Phi| -> usize {
            let first = p.vals.iter().flatten().next();
            p.vals.iter().flatten().flat_map(|v| v.sub(first.unwrap()).t).map(|(i, _)| if let Atom::Mul(v) = atom(i) { v.len() } else { 1 }).max().unwrap_or(0)
        };
        let w: Vec<usize> = self.phis.iter().map(weight).collect();
        let Some(first) = w.iter().position(|x| *x > 1) else { return false };
        if w[first..].iter().all(|x| *x > 1) {
            return false;
        }
        self.stage = 2;
        let keep = self.phis.iter().zip(w).map(|(p, w)| w <= 1 || self.seeded.contains(&p.path)).collect();
        self.restart(keep);
        true
    }
    fn restart(&mut self, keep: Vec<bool>) {
        let old = std::mem::take(&mut self.phis);
        let next = std::mem::take(&mut self.next);
        for (p, k) in old.into_iter().zip(keep) {
            if k && let Some(o) = next.own.get(&p.path) {
                self.seeded.insert(p.path);
                self.next.own.insert(p.path, *o);
                self.phis.push(p);
            }
        }
        self.cphis.clear();
        self.hints.clear();
        self.lens.clear();
        self.bits = None;
    }
    pub fn sigma(&self, s: usize) -> Subst {
        let mut m = HashMap::new();
        for p in &self.phis {
            if let Some(v) = &p.vals[s] {
                m.insert(p.id, v.clone());
            }
        }
        let mut x = Subst::new(m);
        for p in &self.cphis {
            if let Some((c, o)) = &p.vals[s] {
                if matches!(cont(*c), Cont::Dev | Cont::Zero | Cont::Const(_)) {
                    continue;
                }
                x.cm.insert(p.c, (*c, o.clone()));
            }
        }
        x
    }
    fn phi_range(&self, vals: &[Option<Lin>]) -> Rng {
        let mut lo: Option<i128> = Some(i128::MAX);
        let mut hi: Option<i128> = Some(i128::MIN);
        for (s, v) in vals.iter().enumerate() {
            let Some(v) = v else { continue };
            let (mut a, mut b) = v.range();
            if !self.looping && !v.t.is_empty() {
                // Bounds the source's facts put on the same combination.
                for f in self.facts[s].0.iter() {
                    let (l, both) = match f {
                        Fact::Ge(l) => (l, false),
                        Fact::Eq(l) => (l, true),
                        Fact::Ne(_) => continue,
                    };
                    if l.t == v.t {
                        a = Some(a.map_or(v.k - l.k, |x| x.max(v.k - l.k)));
                        if both {
                            b = Some(b.map_or(v.k - l.k, |x| x.min(v.k - l.k)));
                        }
                    } else if l.t.len() == v.t.len() && l.t.iter().zip(v.t.iter()).all(|(x, y)| x.0 == y.0 && x.1 == -y.1) {
                        b = Some(b.map_or(v.k + l.k, |x| x.min(v.k + l.k)));
                        if both {
                            a = Some(a.map_or(v.k + l.k, |x| x.max(v.k + l.k)));
                        }
                    }
                }
            }
            lo = lo.zip(a).map(|(x, y)| x.min(y));
            hi = hi.zip(b).map(|(x, y)| x.max(y));
        }
        if !self.looping {
            let mut lo = lo;
            let mut hi = hi;
            if !lo.is_some_and(|x| x >= 0) && self.all(vals, |v| Fact::Ge(v.clone())) {
                lo = Some(0);
            }
            if !hi.is_some_and(|x| x <= u64::MAX as i128) {
                for b in ladder() {
                    if self.all(vals, |v| Fact::Ge(v.neg().addk(b))) {
                        hi = Some(b);
                        break;
                    }
                }
            }
            return (lo, hi);
        }
        let neg = !lo.is_some_and(|x| x >= 0);
        let lo = if !neg {
            Some(0)
        } else if self.all(vals, |v| Fact::Ge(v.clone())) {
            Some(0)
        } else {
            None
        };
        for b in ladder() {
            if hi.is_some_and(|x| x <= b) || self.all(vals, |v| Fact::Ge(v.neg().addk(b))) {
                return (lo, Some(b));
            }
        }
        (lo, None)
    }
    fn all(&self, vals: &[Option<Lin>], f: impl Fn(&Lin) -> Fact) -> bool {
        vals.iter().enumerate().all(|(s, v)| v.as_ref().is_none_or(|v| prove(&self.facts[s], &f(v))))
    }
    pub fn lin(&mut self, vals: &[Option<Lin>], path: u64) -> Lin {
        let r = self.lin0(vals, path);
        if self.looping && !self.next.own.contains_key(&path) {
            self.next.rel.insert(path, r.clone());
        }
        r
    }
    fn lin0(&mut self, vals: &[Option<Lin>], path: u64) -> Lin {
        let Some(first) = vals.iter().flatten().next().cloned() else { return Lin::c(0) };
        let i0 = vals.iter().position(|v| v.is_some()).unwrap();
        if self.seeded.contains(&path) && let Some((id, g, r)) = self.next.own.get(&path) {
            return Lin::a(*id).scale(*g).addk(*r);
        }
        let mut forced = None;
        if let Some(t) = self.prev {
            if let Some(o) = t.own.get(&path) {
                forced = Some(*o);
            } else if let Some(h) = t.rel.get(&path) {
                // Still valid?
                let h = if self.renamed.is_empty() { h.clone() } else { Subst::new(self.renamed.clone()).lin(h) };
                let h = &h;
                let mut ok = true;
                for s in 0..self.n {
                    if let Some(v) = &vals[s] {
                        let e = self.sigma(s).lin(h);
                        if e != *v && !prove(&self.facts[s], &Fact::Eq(e.sub(v))) {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    return h.clone();
                }
                self.relfail = true;
            }
        }
        let fresh = forced.is_none() && self.n == 1 && self.sum.as_ref().is_some_and(|g| !global_lin(&first, g));
        if fresh {
            for p in &self.phis {
                let Some(pv) = &p.vals[0] else { continue };
                if pv.t.is_empty() || pv.t.len() != first.t.len() {
                    continue;
                }
                let c = first.t[0].1 / pv.t[0].1;
                if c != 0 && first.t.iter().zip(&pv.t).all(|(a, b)| a.0 == b.0 && b.1.checked_mul(c) == Some(a.1)) {
                    return Lin::a(p.id).scale(c).addk(first.k - c * pv.k);
                }
            }
        }
        if forced.is_none() && !fresh {
            if vals.iter().flatten().all(|v| *v == first) {
                return first;
            }
            // Equal under each source's own facts?
            let agree = |x: &Lin| vals.iter().enumerate().all(|(s, v)| v.as_ref().is_none_or(|v| v == x || prove(&self.facts[s], &Fact::Eq(v.sub(x)))));
            if agree(&first) {
                return first;
            }
            if self.n == 2 && let Some(Some(x)) = vals.get(1) && *x != first && agree(x) {
                return x.clone();
            }
            if !self.looping && self.sum.is_none() {
                if let Some(e) = self.by_bit(vals) {
                    return e;
                }
            }
            // An affine function of an existing symbol?
            let mut best: Option<Lin> = None;
            for p in &self.phis {
                if let Some(e) = Self::affine(&first, i0, vals, p, self.looping) {
                    let big = |l: &Lin| l.k.abs() > 1 << 56 || l.t.iter().any(|x| x.1.abs() > 1 << 56);
                    if !(self.alt && (e.t.len() > 1 || e.k != 0) && e.t.iter().any(|x| matches!(atom(x.0), Atom::Mul(_)))) && (!big(&e) || vals.iter().flatten().any(big)) {
                        if best.as_ref().is_none_or(|b| e.t.len() < b.t.len()) {
                            best = Some(e);
                        }
                    }
                }
            }
            if let Some(e) = best {
                return e;
            }
            self.changed = true;
        }
        // A symbol of its own.
        let defined: Vec<&Lin> = vals.iter().flatten().collect();
        let (mut g, mut r) = (1i128, 0i128);
        if let Some((_, fg, fr)) = forced {
            g = fg;
            r = fr;
        } else {
            let mut x = 0;
            for v in &defined {
                x = gcd(x, v.gcd());
                x = gcd(x, (v.k - first.k).abs());
            }
            if x > 1 && x < 1 << 40 {
                g = x;
                r = first.k.rem_euclid(x);
            }
        }
        let fits = |v: &Lin, g: i128, r: i128| v.gcd() % g == 0 && (v.k - r) % g == 0;
        if !defined.iter().all(|v| fits(v, g, r)) {
            g = 1;
            r = 0;
            self.changed = true;
        }
        let scaled: Vec<Option<Lin>> = vals
            .iter()
            .map(|v| v.as_ref().map(|v| if g == 1 { v.clone() } else { Lin { k: (v.k - r) / g, t: v.t.iter().map(|(i, c)| (*i, c / g)).collect() } }))
            .collect();
        let (mut lo, mut hi) = self.phi_range(&scaled);
        if let Some((id, fg, _)) = forced {
            if fg == g {
                // Ranges only grow.
                let (pl, ph) = arange(id);
                lo = lo.zip(pl).map(|(a, b)| a.min(b));
                hi = hi.zip(ph).map(|(a, b)| a.max(b));
            }
        }
        let imp = defined.iter().any(|v| v.imp());
        // Machine integers of at most 64 bits.
        if !WIDE.with(|w| w.get()) {
            // No unsigned integer is negative, whatever can be shown of the
            // expression it was computed by.
            if !lo.is_some_and(|x| x >= 0) && UNSIGNED.with(|u| u.get()) && scaled.iter().flatten().all(|v| v.range().0.is_some_and(|x| x >= 0) || v.t.len() + (v.k != 0) as usize >= 2) {
                lo = Some(0);
            }
            lo = Some(lo.map_or(-(1i128 << 63), |x| x.max(-(1i128 << 63))));
            hi = Some(hi.map_or(u64::MAX as i128, |x| x.min(u64::MAX as i128)));
        }
        if hi.is_none() && !imp && std::env::var("VF_RANGE2").is_ok() {
            eprintln!("NORANGE {:x} {} forced {:?}", path, vals.iter().flatten().map(|v| show(v)).collect::<Vec<_>>().join("  |  "), forced.map(|f| arange(f.0)));
            for (s, v) in vals.iter().enumerate() {
                if let Some(v) = v {
                    let ids: Vec<Id> = v.t.iter().map(|x| x.0).collect();
                    for f in self.facts[s].0.iter().filter(|f| f.lin().t.iter().any(|x| ids.contains(&x.0)) || true) {
                        eprintln!("      {s}: {}", f.show());
                    }
                }
            }
        }
        let id = mk(Atom::Sym(hash(&(self.key, path, 0u8)), lo, hi, imp));
        if let Some((pid, ..)) = forced {
            if pid != id {
                self.renamed.insert(pid, Lin::a(id));
                self.changed = true;
            }
        }
        if scaled.iter().flatten().any(crate::ck::digest) {
            crate::ck::MADE.with(|x| x.borrow_mut().insert(id));
        }
        self.phis.push(Phi { id, path, vals: scaled });
        self.next.own.insert(path, (id, g, r));
        Lin::a(id).scale(g).addk(r)
    }
    /// The difference of two symbols.
    fn odd(c: &Lin) -> bool {
        c.t.len() == 2 && c.t.iter().all(|x| matches!(atom(x.0), Atom::Sym(..)))
    }
    fn affine(first: &Lin, i0: usize, vals: &[Option<Lin>], p: &Phi, looping: bool) -> Option<Lin> {
        let p0 = p.vals[i0].as_ref()?;
        let mut c: Option<Lin> = None;
        for (v, w) in vals.iter().zip(&p.vals) {
            let Some(v) = v else { continue };
            let w = w.as_ref()?;
            let dv = v.sub(first);
            let dw = w.sub(p0);
            match &c {
                None => {
                    if dw.is_c() == Some(0) {
                        if dv.is_c() != Some(0) {
                            return None;
                        }
                        continue;
                    }
                    if dv.is_c() == Some(0) {
                        return None;
                    }
                    if let Some(k) = dw.is_c() {
                        if dv.k % k != 0 || dv.gcd() % k != 0 {
                            return None;
                        }
                        c = Some(Lin { k: dv.k / k, t: dv.t.iter().map(|(i, x)| (*i, x / k)).collect() });
                    } else {
                        let (i, x) = dw.t[0];
                        c = dv.t.iter().find_map(|z| {
                            if z.1 % x != 0 {
                                return None;
                            }
                            let q = if z.0 == i { Lin::c(1) } else { mono_div(z.0, i)? };
                            let q = q.scale(z.1 / x);
                            (mul(&dw, &q) == dv).then_some(q)
                        });
                        c.as_ref()?;
                        if mul(&dw, c.as_ref().unwrap()) != dv {
                            return None;
                        }
                    }
                }
                Some(c) => {
                    if mul(&dw, c) != dv {
                        return None;
                    }
                }
            }
        }
        let c = c?;
        // Where paths merge, any two values differ by some multiple of what
        // tells the paths apart.
        if c.t.len() > 2 || c.imp() {
            return None;
        }
        Some(first.add(&mul(&Lin::a(p.id).sub(p0), &c)))
    }
    /// Merges byte ranges: contents with offsets.
    pub fn cont(&mut self, vals: &[Option<(Cid, Lin)>], path: u64) -> (Cid, Lin) {
        let Some((c0, o0)) = vals.iter().flatten().next().cloned() else { return (mkc(Cont::Zero), Lin::c(0)) };
        let forced = self.prev.is_some_and(|p| p.cown.contains(&path));
        let fresh = self.n == 1 && self.sum.as_ref().is_some_and(|g| !global_cont(c0, g));
        if !forced && !fresh && vals.iter().flatten().all(|(c, _)| *c == c0) {
            let offs: Vec<Option<Lin>> = vals.iter().map(|v| v.as_ref().map(|x| x.1.clone())).collect();
            return (c0, self.lin(&offs, hash(&(path, 1u8))));
        }
        let _ = o0;
        if !forced {
            for p in &self.cphis {
                let mut d: Option<Lin> = None;
                let mut ok = true;
                for (v, w) in vals.iter().zip(&p.vals) {
                    match (v, w) {
                        (None, _) => {}
                        (Some((c, o)), Some((c2, o2))) if c == c2 => {
                            let x = o.sub(o2);
                            if d.as_ref().is_some_and(|y| *y != x) {
                                ok = false;
                            }
                            d = Some(x);
                        }
                        _ => ok = false,
                    }
                }
                if ok && d.is_some() {
                    return (p.c, d.unwrap());
                }
            }
            self.changed = true;
        }
        let imp = vals.iter().flatten().any(|(c, _)| imp_cont(*c));
        if std::env::var("VF_CONT").is_ok() && vals.iter().flatten().any(|(c, _)| matches!(cont(*c), Cont::Dev)) {
            eprintln!("CONT key {:x} looping {} alt {} entries {}: {}\n{}", self.key, self.looping, self.alt, self.entries, vals.iter().map(|v| v.as_ref().map_or("-".into(), |(c, o)| format!("{}+{}", show_cont(*c), show(o)))).collect::<Vec<_>>().join(" | "), std::backtrace::Backtrace::force_capture().to_string().lines().filter(|l| l.contains("an::")).map(|l| l.trim().to_string()).take(14).collect::<Vec<_>>().join(" "));
        }
        let c = mkc(Cont::Fresh(hash(&(self.key, path, 2u8)), imp));
        if self.looping || vals.iter().flatten().any(|(c, _)| crate::ck::looped(*c)) {
            crate::ck::FILLED.with(|x| x.borrow_mut().insert(c));
        }
        self.cphis.push(CPhi { c, vals: vals.to_vec() });
        self.next.cown.insert(path);
        (c, Lin::c(0))
    }
    fn cond(&mut self, vals: &[Option<&Cond>], path: u64) -> Cond {
        let f = vals.iter().flatten().next().unwrap();
        let forced = self.prev.is_some_and(|p| p.own.contains_key(&path));
        if !forced && vals.iter().flatten().all(|v| v == f) && !(self.n == 1 && self.sum.is_some() && !matches!(f, Cond::T | Cond::F)) {
            return (*f).clone();
        }
        // As an integer: constants, or a symbol per source with its defining facts lost.
        let mut ints = vec![];
        for (s, v) in vals.iter().enumerate() {
            ints.push(v.map(|c| match c {
                Cond::T => Lin::c(1),
                Cond::F => Lin::c(0),
                Cond::A(Fact::Ge(l)) if l.addk(1).fits(0, 1) && l.t.len() == 1 => l.addk(1),
                Cond::A(Fact::Ge(l)) if l.neg().fits(0, 1) && l.t.len() == 1 => l.addk(1),
                c => sym(hash(&(self.key, path, s, c)), Some(0), Some(1)),
            }));
        }
        let l = self.lin(&ints, path);
        Cond::fact(Fact::Ge(l.addk(-1)))
    }
    fn hint(&mut self, len: &Lin) {
        if self.alt {
            self.lens.push(len.clone());
        }
        if let Norm::F(f) = Fact::Ge(len.clone()).norm() {
            self.hints.insert(f);
        }
    }
    fn decided(&mut self) -> Rc<Vec<(Id, Vec<bool>)>> {
        if let Some(b) = &self.bits {
            return b.clone();
        }
        let mut bits: BTreeMap<Id, Vec<Option<bool>>> = BTreeMap::new();
        for (s, f) in self.facts.iter().enumerate() {
            for f in f.0.iter() {
                let (Fact::Eq(l) | Fact::Ge(l)) = f else { continue };
                if l.t.len() != 1 || !matches!(atom(l.t[0].0), Atom::Bit(..)) {
                    continue;
                }
                let (i, c) = l.t[0];
                let v = match f {
                    Fact::Eq(_) => Some(-l.k / c == 1),
                    _ if c > 0 && l.k == -c => Some(true),
                    _ if c < 0 && l.k == 0 => Some(false),
                    _ => None,
                };
                if v.is_some() {
                    bits.entry(i).or_insert_with(|| vec![None; self.n])[s] = v;
                }
            }
        }
        let r: Vec<(Id, Vec<bool>)> = bits
            .into_iter()
            .filter_map(|(i, v)| v.into_iter().collect::<Option<Vec<bool>>>().map(|v| (i, v)))
            .filter(|(_, v)| v.iter().any(|x| *x) && v.iter().any(|x| !*x))
            .collect();
        let r = Rc::new(r);
        self.bits = Some(r.clone());
        r
    }
    /// Constants that a decided bit tells apart.
    fn by_bit(&mut self, vals: &[Option<Lin>]) -> Option<Lin> {
        let mut ks = vec![];
        for v in vals {
            ks.push(match v {
                Some(v) => Some(v.is_c()?),
                None => None,
            });
        }
        for (i, b) in self.decided().iter() {
            let (mut t, mut f) = (None, None);
            let mut ok = true;
            for (k, b) in ks.iter().zip(b) {
                let Some(k) = k else { continue };
                let x = if *b { &mut t } else { &mut f };
                ok &= x.is_none_or(|y| y == *k);
                *x = Some(*k);
            }
            if let (true, Some(t), Some(f)) = (ok, t, f) {
                return Some(Lin::a(*i).scale(t - f).addk(f));
            }
        }
        None
    }
    fn top(&mut self, path: u64) -> V {
        self.imp = true;
        if std::env::var("VF_TOP").is_ok() {
            eprintln!("TOP key {:x}", self.key);
        }
        V::Top(0, hash(&(self.key, path)), true)
    }
    fn place(&mut self, vals: &[Option<&Rc<Place>>], path: u64) -> Option<Rc<Place>> {
        let f = (*vals.iter().flatten().next()?).clone();
        if vals.iter().flatten().all(|p| **p == f) && self.sum.is_none() {
            return Some(f);
        }
        let mut out = Place::cell(f.cell);
        for v in vals.iter().flatten() {
            if v.cell != f.cell || v.proj.len() != f.proj.len() {
                return None;
            }
        }
        for i in 0..f.proj.len() {
            if let P::Idx(_) = &f.proj[i] {
                let mut ls = vec![];
                for v in vals {
                    ls.push(match v {
                        None => None,
                        Some(v) => match &v.proj[i] {
                            P::Idx(l) => Some(l.clone()),
                            _ => return None,
                        },
                    });
                }
                let l = self.lin(&ls, hash(&(path, i, 3u8)));
                out.proj.push(P::Idx(l));
            } else {
                if vals.iter().flatten().any(|v| v.proj[i] != f.proj[i]) {
                    return None;
                }
                out.proj.push(f.proj[i].clone());
            }
        }
        Some(Rc::new(out))
    }
    pub fn val(&mut self, vals: &[Option<&V>], path: u64) -> V {
        let Some(f) = vals.iter().flatten().next().copied() else { return V::Uninit };
        // Unchanged subtrees (but a loop may already have generalised a leaf in them).
        if vals.iter().flatten().all(|v| *v == f) && (self.prev.is_none() && self.sum.is_none() || is_flat(f)) {
            return f.clone();
        }
        let sub = |i: usize| hash(&(path, i, 9u8));
        macro_rules! pick {
            ($p:pat => $e:expr) => {{
                let mut o = vec![];
                let mut ok = true;
                for v in vals {
                    match v {
                        None => o.push(None),
                        Some($p) => o.push(Some($e)),
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok { Some(o) } else { None }
            }};
        }
        if vals.iter().flatten().any(|v| matches!(v, V::Uninit)) {
            return V::Uninit;
        }
        match f {
            V::Int(_) => match pick!(V::Int(l) => l.clone()) {
                Some(o) => V::Int(self.lin(&o, path)),
                None => self.top(path),
            },
            V::Bool(_) => match pick!(V::Bool(c) => c) {
                Some(o) => V::Bool(self.cond(&o, path)),
                None => self.top(path),
            },
            V::Agg(a) => {
                let n = a.len();
                match pick!(V::Agg(x) => x) {
                    Some(o) if o.iter().flatten().all(|x| x.len() == n) => {
                        // Plain fields first: payloads may be related to them.
                        let mut r: Vec<Option<V>> = vec![None; n];
                        for plain in [true, false] {
                            for i in 0..n {
                                if matches!(a[i], V::Int(_)) == plain {
                                    let c: Vec<Option<&V>> = o.iter().map(|x| x.map(|x| &x[i])).collect();
                                    r[i] = Some(self.val(&c, sub(i)));
                                }
                            }
                        }
                        V::agg(r.into_iter().flatten().collect())
                    }
                    _ => self.top(path),
                }
            }
            V::Enum(e0) => match pick!(V::Enum(e) => e) {
                Some(o) => {
                    let tags: Vec<Option<Lin>> = o.iter().map(|e| e.map(|e| e.tag.clone())).collect();
                    let tag = self.lin(&tags, sub(1000));
                    let mut vars: BTreeSet<usize> = BTreeSet::new();
                    for e in o.iter().flatten() {
                        vars.extend(e.pay.keys());
                    }
                    let mut pay = BTreeMap::new();
                    for v in vars {
                        // Sources that can have this variant.
                        let mut subset: Vec<Option<&Pay>> = vec![];
                        let mut unknown = false;
                        let mut dead: Option<&Pay> = None;
                        for e in &o {
                            subset.push(match e {
                                None => None,
                                Some(e) => {
                                    let possible = match e.tag.is_c() {
                                        Some(k) => k == v as i128,
                                        None => true,
                                    };
                                    if possible && !e.pay.contains_key(&v) {
                                        unknown = true;
                                    }
                                    match e.pay.get(&v) {
                                        Some(p) if possible && p.dead() => {
                                            dead = Some(p);
                                            None
                                        }
                                        p if possible => p,
                                        _ => None,
                                    }
                                }
                            });
                        }
                        if let (Some(p), true) = (dead, subset.iter().all(|x| x.is_none())) {
                            pay.insert(v, p.clone());
                            continue;
                        }
                        if unknown || subset.iter().all(|x| x.is_none()) {
                            continue;
                        }
                        let n = subset.iter().flatten().next().unwrap().vals.len();
                        let mut vs = vec![];
                        for i in 0..n {
                            let c: Vec<Option<&V>> = subset.iter().map(|p| p.map(|p| &p.vals[i])).collect();
                            vs.push(self.val(&c, hash(&(path, v, i, 8u8))));
                        }
                        let facts = if tag.is_c().is_some() || self.sum.is_some() { vec![] } else { self.guarded(&subset, &vs, hash(&(path, v, 7u8))) };
                        pay.insert(v, Pay { vals: vs, facts });
                    }
                    V::Enum(Rc::new(En { ty: e0.ty, tag, pay, key: hash(&(self.key, path)) }))
                }
                None => self.top(path),
            },
            V::Ref(_) => match pick!(V::Ref(p) => p).and_then(|o| self.place(&o, path)) {
                Some(p) => V::Ref(p),
                None => self.top(path),
            },
            V::Guard(_) => match pick!(V::Guard(p) => p).and_then(|o| self.place(&o, path)) {
                Some(p) => V::Guard(p),
                None => self.top(path),
            },
            V::View { .. } | V::Buf { .. } => {
                let buf = matches!(f, V::Buf { .. });
                let mut cs = vec![];
                let mut ls = vec![];
                for v in vals {
                    match v {
                        None => {
                            cs.push(None);
                            ls.push(None);
                        }
                        Some(V::View { c, off, len }) if !buf => {
                            cs.push(Some((*c, off.clone())));
                            ls.push(Some(len.clone()));
                        }
                        Some(V::Buf { c, off, len }) if buf => {
                            cs.push(Some((*c, off.clone())));
                            ls.push(Some(len.clone()));
                        }
                        _ => return self.top(path),
                    }
                }
                let len = self.lin(&ls, sub(1));
                self.hint(&len);
                let (c, off) = self.cont(&cs, sub(2));
                if buf { V::Buf { c, off, len } } else { V::View { c, off, len } }
            }
            V::MSlice(..) => {
                let ps = pick!(V::MSlice(p, _, _) => p);
                let os = pick!(V::MSlice(_, o, _) => o.clone());
                let ls = pick!(V::MSlice(_, _, l) => l.clone());
                match (ps, os, ls) {
                    (Some(p), Some(o), Some(l)) => match self.place(&p, path) {
                        Some(p) => {
                            let o = self.lin(&o, sub(1));
                            let l = self.lin(&l, sub(2));
                            self.hint(&l);
                            V::MSlice(p, o, l)
                        }
                        None => self.top(path),
                    },
                    _ => self.top(path),
                }
            }
            V::Seq(_) => match pick!(V::Seq(s) => s) {
                Some(o) => self.seq(&o, path),
                None => self.top(path),
            },
            V::Map(_) => match pick!(V::Map(m) => m) {
                Some(o) => {
                    let mut rest: Vec<Alt> = vec![];
                    for (s, m) in o.iter().enumerate() {
                        if let Some(m) = m {
                            for a in &m.rest {
                                let a = self.rename(a.clone(), s, path);
                                add_alt(&mut rest, a, hash(&(self.key, path)), &self.common());
                            }
                        }
                    }
                    V::Map(Rc::new(MapV { rest, key: o.iter().flatten().next().unwrap().key }))
                }
                None => self.top(path),
            },
            V::Boxed(_) => match pick!(V::Boxed(b) => &**b) {
                Some(o) => V::Boxed(Rc::new(self.val(&o, sub(1)))),
                None => self.top(path),
            },
            V::Cell { .. } => {
                let vs = pick!(V::Cell { v, .. } => &**v);
                let bs = pick!(V::Cell { borrowed, .. } => borrowed);
                match (vs, bs) {
                    (Some(a), Some(b)) => {
                        let v = self.val(&a, sub(1));
                        let borrowed = self.cond(&b, sub(2));
                        V::Cell { v: Rc::new(v), borrowed }
                    }
                    _ => self.top(path),
                }
            }
            V::Shared(c) => {
                if vals.iter().flatten().all(|v| matches!(v, V::Shared(d) if d == c)) {
                    f.clone()
                } else {
                    if std::env::var("VF_TOP").is_ok() {
                        eprintln!("shared {}", vals.iter().flatten().map(|v| v.show()).collect::<Vec<_>>().join(" "));
                    }
                    self.top(path)
                }
            }
            V::Fn(_) | V::Tok(..) => {
                if let (V::Tok(t, _), Some(o)) = (f, pick!(V::Tok(t, _) => *t)) {
                    if o.iter().flatten().all(|x| x == t) {
                        return V::Tok(t, hash(&(self.key, path)));
                    }
                }
                if vals.iter().flatten().all(|v| *v == f) { f.clone() } else { self.top(path) }
            }
            V::Top(t, _, _) => {
                let imp = vals.iter().flatten().any(|v| !matches!(v, V::Top(_, _, false)));
                V::Top(*t, hash(&(self.key, path)), imp)
            }
            V::Uninit => V::Uninit,
        }
    }
    fn seq(&mut self, o: &[Option<&Rc<SeqV>>], path: u64) -> V {
        let lens: Vec<Option<Lin>> = o.iter().map(|x| x.map(|x| x.len.clone())).collect();
        let len = self.lin(&lens, hash(&(path, 1u8)));
        self.hint(&len);
        let f = o.iter().flatten().next().unwrap();
        let i0 = o.iter().position(|x| x.is_some()).unwrap();
        let mut known = vec![];
        let mut used: Vec<HashSet<usize>> = vec![HashSet::new(); o.len()];
        for (ki, (i, v)) in f.known.iter().enumerate() {
            // Same index in every source?
            let mut vs: Vec<Option<&V>> = vec![None; o.len()];
            let mut is: Vec<Option<Lin>> = vec![None; o.len()];
            vs[i0] = Some(v);
            is[i0] = Some(i.clone());
            let mut hit = vec![(i0, ki)];
            let mut ok = true;
            for (s, q) in o.iter().enumerate() {
                if s == i0 {
                    continue;
                }
                let Some(q) = q else { continue };
                match q.known.iter().position(|(j, _)| j == i) {
                    Some(p) => {
                        vs[s] = Some(&q.known[p].1);
                        is[s] = Some(q.known[p].0.clone());
                        hit.push((s, p));
                    }
                    // Not an element there: nothing to agree with.
                    None if prove(&self.facts[s], &Fact::Ge(i.sub(&q.len))) || prove(&self.facts[s], &Fact::Ge(i.neg().addk(-1))) => {}
                    None => ok = false,
                }
            }
            if !ok || (self.looping && i.is_c().is_none()) {
                continue;
            }
            if vs.iter().flatten().any(|w| vshape(w, 6) != vshape(v, 6) && (self.looping || vshape(w, 3) == vshape(v, 3))) {
                continue;
            }
            for (s, p) in hit {
                used[s].insert(p);
            }
            let v = self.val(&vs, hash(&(path, i, 2u8)));
            known.push((i.clone(), v));
        }
        if !self.looping && self.sum.is_none() {
            // Elements at different places of different sources that play the
            // same part (a reference to them may be live).
            for ki in 0..f.known.len() {
                if used[i0].contains(&ki) {
                    continue;
                }
                let mut vs: Vec<Option<&V>> = vec![None; o.len()];
                let mut is: Vec<Option<Lin>> = vec![None; o.len()];
                let mut hit = vec![];
                let mut ok = true;
                for (s, q) in o.iter().enumerate() {
                    let Some(q) = q else { continue };
                    let p = if s == i0 { Some(ki) } else { (0..q.known.len()).find(|p| !used[s].contains(p) && vshape(&q.known[*p].1, 2) == vshape(&f.known[ki].1, 2) && !(vshape(&q.known[*p].1, 3) == vshape(&f.known[ki].1, 3) && vshape(&q.known[*p].1, 6) != vshape(&f.known[ki].1, 6))) };
                    match p {
                        Some(p) => {
                            vs[s] = Some(&q.known[p].1);
                            is[s] = Some(q.known[p].0.clone());
                            hit.push((s, p));
                        }
                        None => ok = false,
                    }
                }
                if !ok {
                    continue;
                }
                for (s, p) in hit {
                    used[s].insert(p);
                }
                let i = self.lin(&is, hash(&(path, ki, 4u8)));
                let v = self.val(&vs, hash(&(path, ki, 5u8)));
                known.push((i, v));
            }
        }
        let mut rest: Vec<Alt> = vec![];
        let akey = hash(&(self.key, path));
        for (s, q) in o.iter().enumerate() {
            let Some(q) = q else { continue };
            for a in &q.rest {
                let a = self.rename(a.clone(), s, path);
                add_alt(&mut rest, a, akey, &self.common());
            }
            for (p, (i, v)) in q.known.iter().enumerate() {
                if !used[s].contains(&p) {
                    let a = self.to_alt(s, i, v);
                    let a = self.rename(a, s, path);
                    add_alt(&mut rest, a, akey, &self.common());
                }
            }
        }
        V::Seq(Rc::new(SeqV { len, known, rest }))
    }
    /// Turns a known element into an alternative for unknown positions.
    fn to_alt(&self, s: usize, i: &Lin, v: &V) -> Alt {
        alt_of(&self.facts[s], i, v, self.entry_syms.as_ref())
    }
    /// Alternatives are not rewritten in terms of the merge's symbols; names
    /// in them stay those of their source.
    /// Facts every source has.
    fn common(&self) -> Facts {
        let mut s: BTreeSet<Fact> = (*self.facts[0].0).clone();
        for f in &self.facts[1..] {
            s.retain(|x| f.0.contains(x));
        }
        Facts(Rc::new(s))
    }
    fn rename(&self, mut a: Alt, _s: usize, _path: u64) -> Alt {
        let Some(g) = &self.sum else { return a };
        // Names of the caller become the element's own.
        let mut all = BTreeSet::new();
        visit(&a.v, &mut |x| match x {
            Ok(l) => atoms_of(l, &mut all),
            Err(c) => catoms(c, &mut all),
        });
        let see: BTreeSet<Id> = all.clone();
        a.facts.retain(|f| {
            let mut x = BTreeSet::new();
            atoms_of(f.lin(), &mut x);
            x.iter().all(|i| !matches!(atom(*i), Atom::Sym(k, ..) if k != IDX) || g.contains(i) || see.contains(i))
        });
        for f in &a.facts {
            atoms_of(f.lin(), &mut all);
        }
        a.bound = all.into_iter().filter(|i| matches!(atom(*i), Atom::Sym(k, ..) if k != IDX) && !g.contains(i)).collect();
        canon(a)
    }
    /// Facts that hold in the given sources (with payload facts) but not everywhere.
    fn guarded(&mut self, subset: &[Option<&Pay>], vs: &[V], path: u64) -> Vec<Fact> {
        let out = self.guarded0(subset, vs, path);
        if self.looping {
            self.next.pay.insert(path, out.clone());
        }
        out
    }
    fn guarded0(&mut self, subset: &[Option<&Pay>], vs: &[V], path: u64) -> Vec<Fact> {
        let Some(s0) = subset.iter().position(|x| x.is_some()) else { return vec![] };
        let mut fs: Vec<(usize, Facts)> = vec![];
        for (s, p) in subset.iter().enumerate() {
            if let Some(p) = p {
                let mut f = self.facts[s].clone();
                for x in &p.facts {
                    f.add(x.clone());
                }
                fs.push((s, f));
            }
        }
        let _ = s0;
        let n = fs.len();
        let mut out = vec![];
        let all: Vec<Facts> = self.facts.clone();
        // A later round of a loop only drops facts; a payload nothing touched
        // gets no new ones.
        let mut ren = Subst::new(self.renamed.clone());
        let old: Option<Vec<Fact>> = self.prev.and_then(|p| p.pay.get(&path)).map(|v| v.iter().map(|f| map_fact(f, &mut ren)).collect());
        let same = subset.iter().all(|p| p.is_some_and(|p| Some(p) == subset[s0]));
        // Orders between the payload's symbols and others.
        let mut orders = vec![];
        if old.is_none() && !(same && self.looping) {
            let fresh = |l: &Lin| l.k == 0 && l.t.len() == 1 && l.t[0].1 == 1;
            let mut inside: BTreeSet<Id> = BTreeSet::new();
            for v in vs {
                visit(v, &mut |x| {
                    if let Ok(l) = x {
                        if fresh(l) {
                            inside.insert(l.t[0].0);
                        }
                    }
                });
            }
            let both: Vec<Id> = self.phis.iter().filter(|p| !inside.contains(&p.id) && p.vals.iter().enumerate().all(|(s, v)| v.is_some() || subset[s].is_none())).map(|p| p.id).collect();
            if inside.len() * both.len() <= 40 {
                for p in &inside {
                    for q in &both {
                        for f in [Fact::Ge(Lin::a(*p).sub(&Lin::a(*q))), Fact::Ge(Lin::a(*q).sub(&Lin::a(*p)))] {
                            let ok = fs.iter().all(|(t, g)| {
                                let x = map_fact(&f, &mut self.sigma(*t));
                                prove(g, &x)
                            });
                            if ok {
                                orders.push(f);
                            }
                        }
                    }
                }
            }
        }
        out.extend(orders);
        if std::env::var("VF_G").is_ok() {
            eprintln!("GUARD path {path:x} looping {} entries {} n {} old {:?} same {same} subset {:?}", self.looping, self.entries, self.n, old.as_ref().map(|o| o.iter().map(|x| x.show()).collect::<Vec<_>>()), subset.iter().map(|x| x.is_some()).collect::<Vec<_>>());
            for p in &self.phis {
                eprintln!("    {} = {:?}", V::Int(Lin::a(p.id)).show(), p.vals.iter().map(|v| v.as_ref().map(|v| V::Int(v.clone()).show())).collect::<Vec<_>>());
            }
            for f in &out {
                eprintln!("    order {}", f.show());
            }
        }
        for (k, (s, f)) in fs.iter().enumerate() {
            let cands = match &old {
                Some(_) if k > 0 => break,
                Some(o) => o.clone(),
                None if same && k > 0 => break,
                None if same => {
                    let mut x = Facts::default();
                    for c in &subset[s0].unwrap().facts {
                        x.add_raw(c.clone());
                    }
                    self.inverse(*s, &x)
                }
                None if self.looping && *s >= self.entries && k > 0 => break,
                None => self.inverse(*s, f),
            };
            for c in cands {
                if out.len() >= 24 {
                    return out;
                }
                if out.contains(&c) {
                    continue;
                }
                let mut ok = true;
                for j in 0..n {
                    if j == k && old.is_none() {
                        continue;
                    }
                    let (t, g) = &fs[j];
                    let x = map_fact(&c, &mut self.sigma(*t));
                    if !prove(g, &x) {
                        ok = false;
                        break;
                    }
                }
                if !ok {
                    continue;
                }
                // Not needed if it holds everywhere.
                let everywhere = (0..self.n).all(|t| all[t].0.contains(&c) );
                if !everywhere {
                    out.push(c);
                }
            }
        }
        out
    }
    /// The facts of a source, in terms of the merge's symbols.
    fn inverse(&self, s: usize, fs: &Facts) -> Vec<Fact> {
        let mut m: HashMap<Id, Lin> = HashMap::new();
        let mut alt: Vec<(Id, Lin)> = vec![];
        for p in &self.phis {
            if let Some(v) = &p.vals[s] {
                // Solve for one atom with coefficient +-1.
                if let Some((i, c)) = v.t.iter().rev().find(|(_, c)| c.abs() == 1) {
                    let rest = v.sub(&Lin::a(*i).scale(*c));
                    let e = Lin::a(p.id).sub(&rest).scale(*c);
                    if m.contains_key(i) {
                        alt.push((*i, e));
                    } else {
                        m.insert(*i, e);
                    }
                }
            }
        }
        let mut x = Subst::new(m);
        for p in &self.cphis {
            if let Some((c, o)) = &p.vals[s] {
                if matches!(cont(*c), Cont::Dev | Cont::Zero | Cont::Const(_)) {
                    continue;
                }
                x.cm.insert(*c, (p.c, o.neg()));
            }
        }
        let mut out = vec![];
        for f in fs.0.iter() {
            let g = map_fact(f, &mut x);
            if g != *f {
                if let Norm::F(g) = g.norm() {
                    out.push(g);
                }
            } else {
                out.push(f.clone());
            }
        }
        for (i, e) in alt {
            let mut y = Subst::new([(i, e)].into_iter().collect());
            for f in fs.0.iter() {
                let g = map_fact(f, &mut y);
                if g != *f {
                    let g = map_fact(&g, &mut x);
                    if let Norm::F(g) = g.norm() {
                        out.push(g);
                    }
                }
            }
        }
        out
    }
    /// The facts of the merged state.
    pub fn merge_facts(&mut self) -> Facts {
        let mut cands: BTreeSet<Fact> = BTreeSet::new();
        let fresh = self.prev.is_none() || self.changed;
        if let Some(p) = self.prev {
            let mut r = Subst::new(self.renamed.clone());
            cands.extend(p.facts.iter().map(|f| map_fact(f, &mut r)));
        }
        if fresh {
            for s in 0..if self.sum.is_some() { 1 } else { self.n } {
                let fs = self.facts[s].clone();
                for c in self.inverse(s, &fs) {
                    if self.alt && s > 0 && !c.lin().t.iter().any(|x| self.phis.iter().any(|p| p.id == x.0)) {
                        continue;
                    }
                    if let Some(g) = &self.sum {
                        if !global_but(c.lin(), g, &self.phis) {
                            continue;
                        }
                    }
                    // Each part of a minimum it is below, too.
                    if let Fact::Ge(l) = &c {
                        let m = l.t.iter().find_map(|(a, k)| if *k == 1 { if let Atom::Min(x, y) = atom(*a) { Some((*a, x, y)) } else { None } } else { None });
                        if let Some((a, x, y)) = m {
                            let rest = l.sub(&Lin::a(a));
                            cands.insert(Fact::Ge(rest.add(&x)));
                            cands.insert(Fact::Ge(rest.add(&y)));
                        }
                    }
                    cands.insert(c);
                }
            }
            // What all sources know.
            if self.sum.is_none() && self.n > 1 {
                let f = &self.facts[0];
                // One source may know it as part of something stronger.
                for g in &self.facts {
                    cands.extend(g.0.iter().filter(|c| c.lin().t.len() == 1).cloned());
                }
                cands.extend(f.0.iter().filter(|c| self.facts[1..].iter().all(|g| g.0.contains(c))).cloned());
            }
            // Bounds by the value in some source; constants.
            for p in self.phis.iter().filter(|_| !self.alt && self.sum.is_none()) {
                let vs: BTreeSet<&Lin> = p.vals.iter().flatten().collect();
                if self.looping {
                    for v in p.vals.iter().take(self.entries).flatten() {
                        if !v.imp() {
                            cands.insert(Fact::Ge(Lin::a(p.id).sub(v)));
                            cands.insert(Fact::Ge(v.sub(&Lin::a(p.id))));
                        }
                    }
                } else if vs.len() <= 3 {
                    for v in vs {
                        if v.is_c().is_none() {
                            cands.insert(Fact::Ge(Lin::a(p.id).sub(v)));
                            cands.insert(Fact::Ge(v.sub(&Lin::a(p.id))));
                        }
                    }
                }
            }
            cands.extend(self.hints.iter().cloned());
            // Bounds by a constant where the new symbol has that value.
            if self.phis.len() <= 12 && self.sum.is_none() {
                for p in &self.phis {
                    for s in 0..if self.looping && !self.alt { self.entries.min(self.n) } else { self.n.min(6) } {
                        let Some(c) = p.vals[s].as_ref().and_then(|v| v.is_c()).filter(|c| c.abs() < 1 << 32) else { continue };
                        for f in self.facts[s].0.iter() {
                            let Fact::Ge(l) = f else { continue };
                            if l.t.len() > 2 || l.imp() || l.t.iter().any(|x| x.1.abs() != 1) || self.facts.iter().all(|g| g.0.contains(f)) {
                                continue;
                            }
                            if (l.k + c).abs() <= 1 {
                                cands.insert(Fact::Ge(l.addk(c).sub(&Lin::a(p.id))));
                            }
                            if (l.k - c).abs() <= 1 {
                                cands.insert(Fact::Ge(l.addk(-c).add(&Lin::a(p.id))));
                            }
                        }
                    }
                }
            }
            if self.alt && self.phis.len() <= 6 {
                for l in self.lens.clone().iter() {
                    let g = gcd(l.gcd(), l.k.abs());
                    if g == 0 {
                        continue;
                    }
                    let l = if l.k % g == 0 { Lin { k: l.k / g, t: l.t.iter().map(|(i, c)| (*i, c / g)).collect() } } else { l.clone() };
                    for q in &self.phis {
                        let mut k: Option<i128> = Some(1);
                        for s in 0..self.n {
                            if let Some(b) = &q.vals[s] {
                                let a = self.sigma(s).lin(&l);
                                let x = lower(&self.facts[s], &a.sub(b));
                                k = k.zip(x).map(|(k, x)| k.min(x));
                            }
                        }
                        if let Some(k) = k.filter(|k| *k >= 0) {
                            cands.insert(Fact::Ge(l.sub(&Lin::a(q.id)).addk(-k)));
                        }
                    }
                }
                for p in &self.phis {
                    for q in &self.phis {
                        if p.id == q.id {
                            continue;
                        }
                        let mut k: Option<i128> = Some(1);
                        for s in 0..self.n {
                            if let (Some(a), Some(b)) = (&p.vals[s], &q.vals[s]) {
                                let x = lower(&self.facts[s], &a.sub(b));
                                k = k.zip(x).map(|(k, x)| k.min(x));
                            }
                        }
                        if let Some(k) = k.filter(|k| *k >= 0) {
                            cands.insert(Fact::Ge(Lin::a(p.id).sub(&Lin::a(q.id)).addk(-k)));
                        }
                    }
                }
            }
            // Orders between pairs of new symbols.
            if self.phis.len() <= 12 && !self.alt && !(self.sum.is_some() && self.n > 1) {
                for i in 0..self.phis.len() {
                    for j in 0..self.phis.len() {
                        if i != j {
                            let d = Lin::a(self.phis[i].id).sub(&Lin::a(self.phis[j].id));
                            if self.phis.len() <= if self.looping { 6 } else { 4 } {
                                cands.insert(Fact::Ge(d.addk(1)));
                            }
                            cands.insert(Fact::Ge(d));
                        }
                    }
                }
            }
        }
        let mut sig: Vec<Subst> = (0..self.n).map(|s| self.sigma(s)).collect();
        let mut out = Facts::default();
        let mut tries = 0;
        let mut failed = vec![];
        for c in cands {
            let c = match c.norm() {
                Norm::F(c) => c,
                _ => continue,
            };
            // Symbols defined only in some sources: no use.
            let mut ok = true;
            for s in 0..self.n {
                let x = map_fact(&c, &mut sig[s]);
                if self.facts[s].0.contains(&x) {
                    continue;
                }
                match x.clone().norm() {
                    Norm::True => continue,
                    Norm::False => {
                        ok = false;
                        break;
                    }
                    Norm::F(x) => {
                        if self.facts[s].0.contains(&x) {
                            continue;
                        }
                        tries += 1;
                        if tries > 6000 || !prove(&self.facts[s], &x) {
                            ok = false;
                            break;
                        }
                    }
                }
            }
            if ok {
                out.add_raw(c.clone());
            } else if !self.looping && fresh {
                failed.push(c);
            }
        }
        if !self.looping {
            self.conditional(&failed, &mut sig, &mut out);
        }
        out
    }
    /// Bounds of a new symbol that hold in some of the sources only, guarded
    /// by a decided feature bit that tells those sources from the others.
    fn conditional(&self, failed: &[Fact], sig: &mut [Subst], out: &mut Facts) {
        let own: HashSet<Id> = self.phis.iter().map(|p| p.id).collect();
        if self.n > 6 {
            return;
        }
        let mut one: Vec<&Fact> = failed.iter().filter(|c| matches!(c, Fact::Ge(l) if l.t.len() == 1 && own.contains(&l.t[0].0))).take(12).collect();
        one.extend(failed.iter().filter(|c| matches!(c, Fact::Ge(l) if l.t.len() == 1 && !own.contains(&l.t[0].0) && !matches!(atom(l.t[0].0), Atom::Bit(..)))).take(8));
        if one.is_empty() {
            return;
        }
        let mut bits: BTreeMap<Id, Vec<Option<i128>>> = BTreeMap::new();
        for (s, f) in self.facts.iter().enumerate() {
            for f in f.0.iter() {
                let (Fact::Eq(l) | Fact::Ge(l)) = f else { continue };
                if l.t.len() != 1 || !matches!(atom(l.t[0].0), Atom::Bit(..)) {
                    continue;
                }
                let (i, c) = l.t[0];
                let v = match f {
                    Fact::Eq(_) => Some(-l.k / c),
                    _ if c > 0 && l.k == -c => Some(1),
                    _ if c < 0 && l.k == 0 => Some(0),
                    _ => None,
                };
                bits.entry(i).or_insert_with(|| vec![None; self.n])[s] = v;
            }
        }
        bits.retain(|_, v| v.iter().all(|x| x.is_some()) && v.iter().any(|x| *x == Some(0)) && v.iter().any(|x| *x == Some(1)));
        for c in one {
            let l = c.lin();
            for (b, v) in bits.iter().take(6) {
                for side in [1i128, 0] {
                    // The bound holds where the bit equals `side`, and a weaker
                    // one by m elsewhere.
                    let mut m = 0i128;
                    let mut ok = true;
                    for s in 0..self.n {
                        let x = map_fact(c, &mut sig[s]);
                        if v[s] == Some(side) {
                            ok &= prove(&self.facts[s], &x);
                        } else {
                            match lower(&self.facts[s], x.lin()) {
                                Some(k) => m = m.max(-k),
                                None => ok = false,
                            }
                        }
                        if !ok {
                            break;
                        }
                    }
                    if ok && m > 0 && m < 1 << 70 {
                        let e = if side == 1 { l.addk(m).sub(&Lin::a(*b).scale(m)) } else { l.add(&Lin::a(*b).scale(m)) };
                        if let Norm::F(f) = Fact::Ge(e).norm() {
                            out.add_raw(f);
                        }
                    }
                }
            }
        }
    }
}
/// A lower bound from the ranges and the facts on the same combination.
fn lower(fs: &Facts, v: &Lin) -> Option<i128> {
    let mut a = v.range().0;
    for f in fs.0.iter() {
        match f {
            Fact::Ge(l) | Fact::Eq(l) if l.t == v.t => a = Some(a.map_or(v.k - l.k, |x| x.max(v.k - l.k))),
            Fact::Eq(l) if l.t.len() == v.t.len() && l.t.iter().zip(v.t.iter()).all(|(x, y)| x.0 == y.0 && x.1 == -y.1) => {
                a = Some(a.map_or(v.k + l.k, |x| x.max(v.k + l.k)))
            }
            _ => {}
        }
    }
    a
}
/// Only symbols of the given set (and the device, and constants).
pub fn global_lin(l: &Lin, g: &HashSet<Id>) -> bool {
    let mut a = BTreeSet::new();
    atoms_of(l, &mut a);
    let mut c = BTreeSet::new();
    conts_of(l, &mut c);
    a.iter().all(|i| !matches!(atom(*i), Atom::Sym(..)) || g.contains(i)) && c.iter().all(|c| !matches!(cont(*c), Cont::Fresh(..)))
}
pub fn global_cont(c: Cid, g: &HashSet<Id>) -> bool {
    let mut a = BTreeSet::new();
    catoms(c, &mut a);
    fn fresh(c: Cid) -> bool {
        match cont(c) {
            Cont::Fresh(..) => true,
            Cont::Patch { base, src, .. } => fresh(base) || fresh(src),
            _ => false,
        }
    }
    !fresh(c) && a.iter().all(|i| !matches!(atom(*i), Atom::Sym(..)) || g.contains(i))
}
fn global_but(l: &Lin, g: &HashSet<Id>, phis: &[Phi]) -> bool {
    let mut a = BTreeSet::new();
    atoms_of(l, &mut a);
    a.iter().all(|i| !matches!(atom(*i), Atom::Sym(..)) || g.contains(i) || phis.iter().any(|p| p.id == *i))
}
fn is_flat(v: &V) -> bool {
    // Nothing a loop round could have generalised below.
    matches!(v, V::Uninit | V::Fn(_) | V::Tok(..) | V::Shared(_))
}
pub fn alt_of(facts: &Facts, i: &Lin, v: &V, entry: Option<&BTreeSet<Id>>) -> Alt {
    let mut atoms = BTreeSet::new();
    visit(v, &mut |x| match x {
        Ok(l) => atoms_of(l, &mut atoms),
        Err(c) => {
            catoms(c, &mut atoms);
        }
    });
    let mut conts = BTreeSet::new();
    visit(v, &mut |x| {
        if let Err(c) = x {
            conts.insert(c);
        }
    });
    let mut own = atoms.clone();
    atoms_of(i, &mut own);
    let syms = |a: &BTreeSet<Id>| -> BTreeSet<Id> {
        a.iter().copied().filter(|i| matches!(atom(*i), Atom::Sym(..)) && !entry.is_some_and(|e| e.contains(i))).collect()
    };
    let bound = syms(&own);
    let mut fs: Vec<Fact> = vec![];
    for f in facts.0.iter() {
        let mut a = BTreeSet::new();
        atoms_of(f.lin(), &mut a);
        let mut cs = BTreeSet::new();
        conts_of(f.lin(), &mut cs);
        let touches = a.iter().any(|x| own.contains(x) && (bound.contains(x) || !matches!(atom(*x), Atom::Sym(..)))) || cs.iter().any(|c| conts.contains(c) && !matches!(cont(*c), Cont::Dev));
        if touches && fs.len() < 40 {
            fs.push(f.clone());
        }
    }
    if let Norm::F(f) = Fact::Eq(i.sub(&idx_sym())).norm() {
        fs.push(f);
    }
    let mut all = own.clone();
    for f in &fs {
        atoms_of(f.lin(), &mut all);
    }
    let mut b = syms(&all);
    if let Some((id, _)) = idx_sym().single() {
        b.remove(&id);
    }
    if entry.is_none() {
        b.clear();
    }
    canon(solved(Alt { v: v.clone(), facts: fs, bound: b.into_iter().collect() }))
}
/// Replaces bound symbols that facts determine.
fn solved(mut a: Alt) -> Alt {
    for _ in 0..6 {
        let ge: HashSet<&Lin> = a.facts.iter().filter_map(|f| if let Fact::Ge(l) = f { Some(l) } else { None }).collect();
        let hit = a.facts.iter().find_map(|f| {
            let l = match f {
                Fact::Eq(l) => l,
                Fact::Ge(l) if ge.contains(&l.neg()) => l,
                _ => return None,
            };
            l.t.iter().find_map(|(i, c)| {
                if c.abs() != 1 || !a.bound.contains(i) {
                    return None;
                }
                let rest = l.sub(&Lin::a(*i).scale(*c)).scale(-*c);
                let mut s = BTreeSet::new();
                atoms_of(&rest, &mut s);
                // Not for the position, which the element is a function of.
                let idx = idx_sym().single().map(|x| x.0);
                (!s.contains(i) && !idx.is_some_and(|x| s.contains(&x))).then_some((*i, rest))
            })
        });
        let Some((i, rest)) = hit else { break };
        let mut s = Subst::new(HashMap::from([(i, rest)]));
        a.v = map_v(&a.v, &mut s);
        let mut fs: Vec<Fact> = a.facts.iter().filter_map(|f| match map_fact(f, &mut s).norm() { Norm::F(f) => Some(f), _ => None }).collect();
        fs.sort();
        fs.dedup();
        a.facts = fs;
        a.bound.retain(|x| *x != i);
    }
    a
}
/// Renames the bound symbols canonically.
pub fn canon(mut a: Alt) -> Alt {
    if a.bound.is_empty() {
        return a;
    }
    // An inequality with a symbol that occurs nowhere else says nothing
    // definite of the value.
    let mut n: HashMap<Id, u32> = HashMap::new();
    let mut own = BTreeSet::new();
    visit(&a.v, &mut |x| match x {
        Ok(l) => atoms_of(l, &mut own),
        Err(c) => catoms(c, &mut own),
    });
    let fs: Vec<BTreeSet<Id>> = a
        .facts
        .iter()
        .map(|f| {
            let mut s = BTreeSet::new();
            atoms_of(f.lin(), &mut s);
            s
        })
        .collect();
    for i in own.iter().chain(fs.iter().flatten()) {
        *n.entry(*i).or_default() += 1;
    }
    let mut k = 0;
    let bound = &a.bound;
    a.facts.retain(|f| {
        k += 1;
        !(matches!(f, Fact::Ge(_)) && fs[k - 1].iter().any(|i| bound.contains(i) && n[i] == 1))
    });
    let mut order: Vec<Id> = vec![];
    let mut see = |l: &Lin| {
        let mut s = BTreeSet::new();
        atoms_of(l, &mut s);
        for i in s {
            if a.bound.contains(&i) && !order.contains(&i) {
                order.push(i);
            }
        }
    };
    visit(&a.v, &mut |x| {
        if let Ok(l) = x {
            see(l)
        }
    });
    for f in &a.facts {
        see(f.lin());
    }
    let mut m = HashMap::new();
    let mut nb = vec![];
    for (k, i) in order.iter().enumerate() {
        let (lo, hi) = arange(*i);
        let n = mk(Atom::Sym(hash(&("bound", k)), lo, hi, imp_atom(*i)));
        nb.push(n);
        if n != *i {
            m.insert(*i, Lin::a(n));
        }
    }
    let mut s = Subst::new(m);
    let mut fs: Vec<Fact> = a.facts.iter().map(|f| map_fact(f, &mut s)).collect();
    fs.sort();
    fs.dedup();
    Alt { v: map_v(&a.v, &mut s), facts: fs, bound: nb }
}
/// Adds an alternative, combining it with one of the same shape.
pub fn add_alt(rest: &mut Vec<Alt>, a: Alt, key: u64, common: &Facts) {
    for b in rest.iter_mut() {
        if b.v == a.v {
            // Keep the facts both have.
            let with = |v: &[Fact]| {
                let mut f = common.clone();
                for x in v {
                    f.add_raw(x.clone());
                }
                f
            };
            let halves = |v: &[Fact]| v.iter().flat_map(|f| if let Fact::Eq(l) = f { vec![f.clone(), Fact::Ge(l.clone()), Fact::Ge(l.neg())] } else { vec![f.clone()] }).collect::<Vec<_>>();
            let (hb, ha) = (halves(&b.facts), halves(&a.facts));
            let fb = with(&b.facts);
            let fa = with(&a.facts);
            // Facts of one about symbols that the value does not have say nothing of it.
            let mut own = BTreeSet::new();
            visit(&a.v, &mut |x| match x {
                Ok(l) => atoms_of(l, &mut own),
                Err(c) => catoms(c, &mut own),
            });
            let loose = |f: &Fact| {
                let mut s = BTreeSet::new();
                atoms_of(f.lin(), &mut s);
                s.iter().any(|i| (a.bound.contains(i) || b.bound.contains(i)) && !own.contains(i))
            };
            let mut fs: Vec<Fact> = hb.iter().filter(|f| ha.contains(f) || !loose(f) && prove(&fa, f)).cloned().collect();
            fs.extend(ha.iter().filter(|f| !hb.contains(f) && !loose(f) && prove(&fb, f)).cloned());
            fs.sort();
            fs.dedup();
            b.facts = fs;
            for x in &a.bound {
                if !b.bound.contains(x) {
                    b.bound.push(*x);
                }
            }
            return;
        }
        if vshape(&b.v, 6) == vshape(&a.v, 6) {
            let with = |v: &[Fact]| {
                let mut f = common.clone();
                for x in v {
                    f.add_raw(x.clone());
                }
                f
            };
            let (f1, f2) = (with(&b.facts), with(&a.facts));
            let mut m = Merge::new(vec![f1, f2], hash(&(key, "alt")));
            m.looping = true;
            m.entries = 1;
            m.alt = true;
            let v = m.val(&[Some(&b.v), Some(&a.v)], 1);
            let fs = m.merge_facts();
            if std::env::var("VF_ALT").is_ok() {
                if std::env::var("VF_ALT").is_ok_and(|x| x == "2") && a.facts.iter().any(|f| matches!(f, Fact::Eq(l) if l.t.len() == 2 && l.k == -1 && l.t[0].1 == -l.t[1].1)) {
                    eprintln!("{}", std::backtrace::Backtrace::force_capture());
                }
                eprintln!("ALT {}\n  A {} if {}\n  B {} if {}\n  -> if {}", v.show(), b.v.show(), b.facts.iter().map(|f| f.show()).collect::<Vec<_>>().join(", "), a.v.show(), a.facts.iter().map(|f| f.show()).collect::<Vec<_>>().join(", "), fs.0.iter().filter(|f| !common.0.contains(f)).map(|f| f.show()).collect::<Vec<_>>().join(", "));
            }
            let mut bound = b.bound.clone();
            for x in a.bound.iter().copied().chain(m.phis.iter().map(|p| p.id)) {
                if !bound.contains(&x) {
                    bound.push(x);
                }
            }
            *b = canon(Alt { v, facts: fs.0.iter().filter(|f| !common.0.contains(f)).cloned().collect(), bound });
            return;
        }
    }
    rest.push(a);
}
fn facts_from(v: &[Fact]) -> Facts {
    let mut f = Facts::default();
    for x in v {
        f.add_raw(x.clone());
    }
    f
}
fn idx_shape(p: &Place) -> Vec<i128> {
    p.proj
        .iter()
        .filter_map(|x| match x {
            P::Idx(l) => Some(l.is_c().map_or(99, |k| k.min(3))),
            _ => None,
        })
        .collect()
}
/// Shape of a value: tags and flags down to a depth.
pub fn vshape(v: &V, d: u32) -> u64 {
    if d == 0 {
        return match v {
            V::Uninit => 1,
            _ => 2,
        };
    }
    match v {
        V::Uninit => 1,
        V::Int(_) => 3,
        V::Bool(c) => match c {
            Cond::T => 4,
            Cond::F => 5,
            _ => 6,
        },
        V::Agg(a) => hash(&(7u8, a.iter().map(|x| vshape(x, d)).collect::<Vec<_>>())),
        V::Enum(e) => match e.tag.is_c() {
            Some(k) => {
                let p: Vec<u64> = e.pay.get(&(k as usize)).map(|p| p.vals.iter().map(|x| vshape(x, d - 1)).collect()).unwrap_or_default();
                hash(&(8u8, k, p))
            }
            None => 9,
        },
        V::Ref(p) => hash(&(10u8, p.cell, p.proj.len(), idx_shape(p))),
        V::View { c, .. } => hash(&(11u8, if d > 3 { matches!(cont(*c), Cont::Dev) } else { false })),
        V::MSlice(p, ..) => hash(&(12u8, p.cell, p.proj.len())),
        V::Buf { c, .. } => hash(&(13u8, if d > 3 { matches!(cont(*c), Cont::Dev) } else { false })),
        V::Seq(s) if d > 1 => hash(&(14u8, s.known.iter().any(|k| k.0.is_c() == Some(0)), s.known.iter().filter(|k| k.0.is_c().is_none()).count().min(2))),
        V::Seq(_) => 14,
        V::Map(_) => 15,
        V::Shared(c) => hash(&(16u8, c)),
        V::Boxed(v) => hash(&(17u8, vshape(v, d))),
        V::Cell { v, borrowed } => hash(&(18u8, vshape(v, d), *borrowed == Cond::F)),
        V::Guard(p) => hash(&(19u8, p.cell)),
        V::Fn(f) => hash(&(20u8, f)),
        V::Tok(t, _) => hash(&(21u8, t)),
        V::Top(..) => 22,
    }
}
