//! Linear facts and their entailment: interval bounds, syntactic matching and
//! an exact rational simplex over the facts relevant to a goal, with the
//! defining axioms of the non-linear atoms involved.
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Fact {
    Ge(Lin),
    Eq(Lin),
    Ne(Lin),
}
pub enum Norm {
    True,
    False,
    F(Fact),
}
impl Fact {
    pub fn lin(&self) -> &Lin {
        match self {
            Fact::Ge(l) | Fact::Eq(l) | Fact::Ne(l) => l,
        }
    }
    pub fn not(&self) -> Vec<Fact> {
        match self {
            Fact::Ge(l) => vec![Fact::Ge(l.neg().addk(-1))],
            Fact::Eq(l) => vec![Fact::Ne(l.clone())],
            Fact::Ne(l) => vec![Fact::Eq(l.clone())],
        }
    }
    /// A bound on the outcome of a comparison is a relation of its operands.
    fn uncmp(&self) -> Option<Fact> {
        let l = self.lin();
        if l.t.len() != 1 {
            return None;
        }
        let (i, c) = l.t[0];
        let Atom::Fun("cmp", a, ..) = atom(i) else { return None };
        let (Arg::L(p), Arg::L(q)) = (&a[0], &a[1]) else { return None };
        let d = p.sub(q);
        let (yes, no) = (Fact::Ge(Lin::c(0)), Fact::Ge(Lin::c(-1)));
        Some(match self {
            Fact::Ge(_) if c > 0 => match -(l.k.div_euclid(c)) {
                m if m <= 0 => yes,
                1 => Fact::Ge(d),
                2 => Fact::Ge(d.addk(-1)),
                _ => no,
            },
            Fact::Ge(_) => match l.k.div_euclid(-c) {
                m if m >= 2 => yes,
                1 => Fact::Ge(d.neg()),
                0 => Fact::Ge(d.neg().addk(-1)),
                _ => no,
            },
            Fact::Eq(_) => {
                if l.k % c != 0 {
                    return Some(no);
                }
                match -l.k / c {
                    0 => Fact::Ge(d.neg().addk(-1)),
                    1 => Fact::Eq(d),
                    2 => Fact::Ge(d.addk(-1)),
                    _ => no,
                }
            }
            Fact::Ne(_) => {
                if l.k % c != 0 {
                    return Some(yes);
                }
                match -l.k / c {
                    0 => Fact::Ge(d),
                    1 => Fact::Ne(d),
                    2 => Fact::Ge(d.neg()),
                    _ => yes,
                }
            }
        })
    }
    /// Bits that differ, or any that are set: none of them.
    fn unbits(&self) -> Option<Fact> {
        let l = self.lin();
        let [(i, c)] = l.t[..] else { return None };
        let some = match self {
            Fact::Eq(_) | Fact::Ne(_) if l.k == 0 => matches!(self, Fact::Ne(_)),
            Fact::Ge(_) if c > 0 && l.k < 0 && -l.k <= c => true,
            Fact::Ge(_) if c < 0 && l.k >= 0 && l.k < -c => false,
            _ => return None,
        };
        let d = match atom(i) {
            Atom::Bits(2, a, b, _) => a.sub(&b),
            Atom::Bits(1, a, b, _) if a.range().0.is_some_and(|x| x >= 0) && b.range().0.is_some_and(|x| x >= 0) => a.add(&b),
            _ => return None,
        };
        Some(if some { Fact::Ne(d) } else { Fact::Eq(d) })
    }
    pub fn norm(self) -> Norm {
        if let Some(f) = self.uncmp().or_else(|| self.unbits()) {
            return f.norm();
        }
        let (lo, hi) = self.lin().range();
        match self {
            Fact::Ge(mut l) => {
                if lo.is_some_and(|x| x >= 0) {
                    return Norm::True;
                }
                if hi.is_some_and(|x| x < 0) {
                    return Norm::False;
                }
                let g = l.gcd();
                if g > 1 {
                    l = Lin { k: l.k.div_euclid(g), t: l.t.iter().map(|(i, c)| (*i, c / g)).collect() };
                }
                Norm::F(Fact::Ge(l))
            }
            Fact::Eq(mut l) => {
                if l.is_c() == Some(0) {
                    return Norm::True;
                }
                if lo.is_some_and(|x| x > 0) || hi.is_some_and(|x| x < 0) {
                    return Norm::False;
                }
                let g = l.gcd();
                if g > 1 {
                    if l.k % g != 0 {
                        return Norm::False;
                    }
                    l = Lin { k: l.k / g, t: l.t.iter().map(|(i, c)| (*i, c / g)).collect() };
                }
                if l.t[0].1 < 0 {
                    l = l.neg();
                }
                Norm::F(Fact::Eq(l))
            }
            Fact::Ne(mut l) => {
                if lo.is_some_and(|x| x > 0) || hi.is_some_and(|x| x < 0) {
                    return Norm::True;
                }
                if l.is_c() == Some(0) {
                    return Norm::False;
                }
                let g = l.gcd();
                if g > 1 {
                    if l.k % g != 0 {
                        return Norm::True;
                    }
                    l = Lin { k: l.k / g, t: l.t.iter().map(|(i, c)| (*i, c / g)).collect() };
                }
                if lo == Some(0) {
                    return Norm::F(Fact::Ge(l_sign(&l, true)));
                }
                if hi == Some(0) {
                    return Norm::F(Fact::Ge(l_sign(&l, false)));
                }
                if l.t[0].1 < 0 {
                    l = l.neg();
                }
                Norm::F(Fact::Ne(l))
            }
        }
    }
    pub fn show(&self) -> String {
        match self {
            Fact::Ge(l) => format!("{} >= 0", show(l)),
            Fact::Eq(l) => format!("{} == 0", show(l)),
            Fact::Ne(l) => format!("{} != 0", show(l)),
        }
    }
}
fn l_sign(l: &Lin, pos: bool) -> Lin {
    if pos { l.addk(-1) } else { l.neg().addk(-1) }
}

#[derive(Clone, Default)]
pub struct Facts(pub Rc<BTreeSet<Fact>>);

impl Facts {
    pub fn add_raw(&mut self, f: Fact) {
        if !self.0.contains(&f) {
            Rc::make_mut(&mut self.0).insert(f);
        }
    }
    /// Adds a fact; false if it is plainly contradictory.
    pub fn add(&mut self, f: Fact) -> bool {
        match f.norm() {
            Norm::True => true,
            Norm::False => false,
            Norm::F(f) => {
                if self.0.contains(&f) {
                    return true;
                }
                match &f {
                    Fact::Ge(l) => {
                        // Strengthen with a matching disequality.
                        let mut ne = None;
                        for g in self.0.iter() {
                            if let Fact::Ne(m) = g {
                                if *m == *l || m.neg() == *l {
                                    ne = Some(g.clone());
                                }
                            }
                        }
                        if let Some(g) = ne {
                            Rc::make_mut(&mut self.0).remove(&g);
                            return self.add(Fact::Ge(l.addk(-1)));
                        }
                        // Both directions: an equality.
                        let n = l.neg();
                        if self.0.contains(&Fact::Ge(n.clone())) {
                            return self.add(Fact::Eq(l.clone()));
                        }
                        // Subsumption among parallel bounds.
                        let mut weaker = vec![];
                        for g in self.0.iter() {
                            if let Fact::Ge(m) = g {
                                if m.t == l.t {
                                    if m.k <= l.k {
                                        return true;
                                    }
                                    weaker.push(g.clone());
                                }
                            }
                        }
                        let s = Rc::make_mut(&mut self.0);
                        for w in weaker {
                            s.remove(&w);
                        }
                        s.insert(f);
                    }
                    Fact::Ne(l) => {
                        if prove(self, &Fact::Ge(l.clone())) {
                            return self.add(Fact::Ge(l.addk(-1)));
                        }
                        if prove(self, &Fact::Ge(l.neg())) {
                            return self.add(Fact::Ge(l.neg().addk(-1)));
                        }
                        Rc::make_mut(&mut self.0).insert(f);
                    }
                    Fact::Eq(_) => {
                        Rc::make_mut(&mut self.0).insert(f);
                    }
                }
                true
            }
        }
    }
    /// Adds a fact unless it already follows; false if contradictory.
    pub fn assume(&mut self, f: &Fact) -> bool {
        if prove(self, f) {
            // Facts about contents (checksums) are kept even if implied.
            return true;
        }
        for n in f.not() {
            if prove(self, &n) {
                return false;
            }
        }
        self.add(f.clone())
    }
}

thread_local! {
    static CACHE: RefCell<HashMap<(u64, u64), bool>> = RefCell::new(HashMap::new());
    pub static STATS: RefCell<[u64; 8]> = const { RefCell::new([0; 8]) };
}
fn stat(i: usize) {
    STATS.with(|s| s.borrow_mut()[i] += 1);
}

pub fn prove(fs: &Facts, goal: &Fact) -> bool {
    prove_e(fs, goal, 0)
}
pub fn prove_e(fs: &Facts, goal: &Fact, effort: u32) -> bool {
    match goal.clone().norm() {
        Norm::True => true,
        Norm::False => fs.0.is_empty() == false && effort > 0 && refute(fs, &[], effort),
        Norm::F(f) => {
            if fs.0.contains(&f) {
                return true;
            }
            match f {
                Fact::Ge(l) => prove_ge(fs, &l, effort),
                Fact::Eq(l) => (prove_ge(fs, &l, effort) && prove_ge(fs, &l.neg(), effort)) || cofactor(&l).is_some_and(|q| prove_e(fs, &Fact::Eq(q), effort)),
                Fact::Ne(l) => prove_ge(fs, &l.addk(-1), effort) || prove_ge(fs, &l.neg().addk(-1), effort),
            }
        }
    }
}
/// What is left of a sum of products of the same factor.
fn cofactor(l: &Lin) -> Option<Lin> {
    if l.k != 0 || l.t.len() < 2 {
        return None;
    }
    let Atom::Mul(v) = atom(l.t.iter().map(|x| x.0).find(|i| matches!(atom(*i), Atom::Mul(_)))?) else { return None };
    'next: for f in v {
        let mut q = Lin::c(0);
        for (i, c) in &l.t {
            if *i == f {
                q.k += c;
                continue;
            }
            match mono_div(*i, f) {
                Some(m) => q = q.add(&m.scale(*c)),
                None => continue 'next,
            }
        }
        return Some(q);
    }
    None
}
fn prove_ge(fs: &Facts, l: &Lin, effort: u32) -> bool {
    if l.range().0.is_some_and(|x| x >= 0) {
        return true;
    }
    stat(0);
    let n = l.neg();
    let mut neq = false;
    for g in fs.0.iter() {
        match g {
            Fact::Ge(m) => {
                if m.t == l.t && m.k <= l.k {
                    return true;
                }
            }
            Fact::Eq(m) => {
                if (m.t == l.t && l.k >= m.k) || (m.t == n.t && l.k >= -m.k) {
                    return true;
                }
            }
            Fact::Ne(m) => {
                // l >= 0 with l = m - 1 or -m - 1: proving m > 0 from m >= 0.
                if (m.t == l.t && m.k == l.k + 1) || (m.t == n.t && -m.k == l.k + 1) {
                    neq = true;
                }
            }
        }
    }
    if neq && prove_ge(fs, &l.addk(1), effort) {
        return true;
    }
    // A common non-negative factor.
    if l.k >= 0 && l.t.len() > 1 {
        for y in factors(l.t[0].0) {
            if !arange(y).0.is_some_and(|x| x >= 0) {
                continue;
            }
            let q: Option<Vec<Lin>> = l.t.iter().map(|(i, c)| mono_div(*i, y).map(|m| m.scale(*c))).collect();
            if let Some(q) = q {
                let q = q.iter().fold(Lin::c(0), |a, b| a.add(b));
                if prove_ge(fs, &q, effort) {
                    return true;
                }
            }
        }
    }
    refute(fs, &[Fact::Ge(n.addk(-1))], effort)
}

/// Are the facts together with the extra ones contradictory?
pub fn refute(fs: &Facts, extra: &[Fact], effort: u32) -> bool {
    let rel = relevant(fs, extra, effort);
    let key = {
        let mut v: Vec<&Fact> = rel.iter().collect();
        v.sort();
        (hash(&(&v, effort)), hash(&(effort, &v, 7u8)))
    };
    if let Some(r) = CACHE.with(|c| c.borrow().get(&key).copied()) {
        stat(1);
        return r;
    }
    let r = refute_rel(&rel, effort, if effort > 0 { 3 } else { 2 });
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 4_000_000 {
            c.clear();
        }
        c.insert(key, r);
    });
    r
}

fn relevant(fs: &Facts, extra: &[Fact], effort: u32) -> Vec<Fact> {
    let rounds = if effort > 0 { 8 } else { 4 };
    let cap = if effort > 0 { 260 } else { 90 };
    if extra.is_empty() {
        return fs.0.iter().filter(|f| !matches!(f, Fact::Ne(_))).cloned().collect();
    }
    let mut seen: HashSet<Id> = HashSet::new();
    let mut out: Vec<Fact> = extra.to_vec();
    let mut taken: HashSet<&Fact> = HashSet::new();
    let mut frontier: Vec<Id> = vec![];
    let push = |l: &Lin, seen: &mut HashSet<Id>, fr: &mut Vec<Id>| {
        for (i, _) in &l.t {
            push_atom(*i, seen, fr, 0);
        }
    };
    for f in extra {
        push(f.lin(), &mut seen, &mut frontier);
    }
    for _ in 0..rounds {
        if frontier.is_empty() || out.len() >= cap {
            break;
        }
        let mut next = vec![];
        let fset: HashSet<Id> = frontier.iter().copied().collect();
        // Shorter facts first.
        let mut cand: Vec<&Fact> =
            fs.0.iter().filter(|f| !matches!(f, Fact::Ne(_)) && !taken.contains(*f) && f.lin().t.iter().any(|(i, _)| fset.contains(i))).collect();
        cand.sort_by_key(|f| f.lin().t.len());
        for f in cand {
            if out.len() >= cap {
                break;
            }
            taken.insert(f);
            out.push(f.clone());
            push(f.lin(), &mut seen, &mut next);
        }
        frontier = next;
    }
    out
}
fn push_atom(i: Id, seen: &mut HashSet<Id>, fr: &mut Vec<Id>, depth: u32) {
    if !seen.insert(i) {
        return;
    }
    fr.push(i);
    if depth > 3 {
        return;
    }
    let mut sub = |l: &Lin| {
        for (j, _) in &l.t {
            push_atom(*j, seen, fr, depth + 1);
        }
    };
    match atom(i) {
        Atom::Div(l, _) | Atom::Pow2(l) => sub(&l),
        Atom::DivL(a, b) | Atom::Min(a, b) => {
            sub(&a);
            sub(&b);
        }
        Atom::Mul(v) => {
            for j in v {
                push_atom(j, seen, fr, depth + 1);
            }
        }
        _ => {}
    }
}

fn refute_rel(rel: &[Fact], effort: u32, splits: u32) -> bool {
    let mut ge: Vec<Lin> = vec![];
    let mut eq: Vec<Lin> = vec![];
    for f in rel {
        match f {
            Fact::Ge(l) => ge.push(l.clone()),
            Fact::Eq(l) => eq.push(l.clone()),
            _ => {}
        }
    }
    // Axioms of the atoms involved, to a fixed point.
    let mut atoms: BTreeSet<Id> = BTreeSet::new();
    let mut work: Vec<Id> = vec![];
    let note = |l: &Lin, atoms: &mut BTreeSet<Id>, work: &mut Vec<Id>| {
        for (i, _) in &l.t {
            if atoms.insert(*i) {
                work.push(*i);
            }
        }
    };
    for l in ge.iter().chain(eq.iter()) {
        note(l, &mut atoms, &mut work);
    }
    let mut mins: Vec<(Id, Lin, Lin)> = vec![];
    let mut pows: Vec<(Id, Lin)> = vec![];
    let mut bits: BTreeMap<Lin, u32> = BTreeMap::new();
    let mut n = 0;
    while let Some(i) = work.pop() {
        n += 1;
        if n > 400 {
            break;
        }
        let s = Lin::a(i);
        match atom(i) {
            Atom::Div(l, d) => {
                let a = l.sub(&s.scale(d));
                note(&a, &mut atoms, &mut work);
                ge.push(a.clone());
                ge.push(a.neg().addk(d - 1));
            }
            Atom::DivL(a, b) => {
                let p = mul(&s, &b);
                let x = a.sub(&p);
                note(&x, &mut atoms, &mut work);
                note(&b, &mut atoms, &mut work);
                ge.push(x.clone());
                ge.push(b.sub(&x).addk(-1));
            }
            Atom::Min(a, b) => {
                let x = a.sub(&s);
                let y = b.sub(&s);
                note(&x, &mut atoms, &mut work);
                note(&y, &mut atoms, &mut work);
                ge.push(x);
                ge.push(y);
                mins.push((i, a, b));
            }
            Atom::Pow2(l) => {
                note(&l, &mut atoms, &mut work);
                pows.push((i, l));
            }
            Atom::Mul(v) => {
                for j in &v {
                    note(&Lin::a(*j), &mut atoms, &mut work);
                }
            }
            Atom::Bit(l, k) => {
                *bits.entry(l.clone()).or_default() += 1;
                if l.range().0.is_some_and(|x| x >= 0) {
                    ge.push(l.sub(&s.scale(1i128 << k)));
                    note(&l, &mut atoms, &mut work);
                }
            }
            _ => {}
        }
    }
    // A value whose bits are used is the sum of its bits.
    for (l, n) in &bits {
        if let (_, Some(h)) = l.range() {
            let w = 128 - h.leading_zeros();
            if w <= 16 && *n > 1 || (effort > 0 && w <= 32 && *n > 1) {
                let mut s = Lin::c(0);
                for k in 0..w {
                    s = s.add(&bit(l, k).scale(1i128 << k));
                }
                eq.push(l.sub(&s));
            }
        }
    }
    // Powers of two, by the bounds of their exponents.
    for (i, e) in &pows {
        let (mut lo, mut hi) = e.range();
        for (l, both) in ge.iter().map(|l| (l, false)).chain(eq.iter().map(|l| (l, true))) {
            if l.t == e.t {
                lo = Some(lo.map_or(e.k - l.k, |x| x.max(e.k - l.k)));
                if both {
                    hi = Some(hi.map_or(e.k - l.k, |x| x.min(e.k - l.k)));
                }
            }
            if l.t.len() == e.t.len() && l.t.iter().zip(&e.t).all(|(x, y)| x.0 == y.0 && x.1 == -y.1) {
                hi = Some(hi.map_or(e.k + l.k, |x| x.min(e.k + l.k)));
                if both {
                    lo = Some(lo.map_or(e.k + l.k, |x| x.max(e.k + l.k)));
                }
            }
        }
        if let Some(lo) = lo.filter(|x| (0..120).contains(x)) {
            ge.push(Lin::a(*i).addk(-(1i128 << lo)));
        }
        if let Some(hi) = hi.filter(|x| (0..120).contains(x)) {
            ge.push(Lin::a(*i).neg().addk(1i128 << hi));
        }
    }
    // Products.
    let monos: Vec<(Id, Vec<Id>)> = atoms
        .iter()
        .filter_map(|i| match atom(*i) {
            Atom::Mul(v) => Some((*i, v)),
            _ => None,
        })
        .collect();
    if !monos.is_empty() {
        let present: HashSet<Id> = atoms.iter().copied().collect();
        let mut pairs: BTreeSet<(Id, Id, Id)> = BTreeSet::new(); // (x, y, x*y)
        for (m, v) in &monos {
            for (p, x) in v.iter().enumerate() {
                if p > 0 && v[p - 1] == *x {
                    continue;
                }
                let mut r = v.clone();
                r.remove(p);
                let y = if r.len() == 1 { r[0] } else { mk(Atom::Mul(r)) };
                pairs.insert((*x, y, *m));
                pairs.insert((y, *x, *m));
            }
        }
        let mut extra: Vec<(bool, Lin)> = vec![];
        for (x, y, m) in &pairs {
            let (m, x_, y_) = (Lin::a(*m), Lin::a(*x), Lin::a(*y));
            let (lx, hx) = arange(*x);
            let (ly, hy) = arange(*y);
            if x < y {
                if let (Some(lx), Some(ly)) = (lx, ly) {
                    if let Some(k) = lx.checked_mul(ly) {
                        extra.push((false, m.sub(&x_.scale(ly)).sub(&y_.scale(lx)).addk(k)));
                    }
                }
            }
            if let (Some(hx), Some(ly)) = (hx, ly) {
                // (hx - x)(y - ly) >= 0
                if let (Some(k), true) = (hx.checked_mul(ly), hx < 1 << 90) {
                    extra.push((false, y_.scale(hx).addk(-k).sub(&m).add(&x_.scale(ly))));
                }
            }
            let _ = hy;
        }
        // Facts over x times the non-negative y.
        let base: Vec<(bool, Lin)> = ge.iter().map(|l| (false, l.clone())).chain(eq.iter().map(|l| (true, l.clone()))).collect();
        let factors: BTreeSet<Id> = pairs.iter().map(|p| p.1).collect();
        let mut cnt = 0;
        for y in &factors {
            let nonneg = arange(*y).0.is_some_and(|x| x >= 0);
            for (is_eq, f) in &base {
                if f.t.len() > 4 || (!nonneg && !is_eq) || cnt > 300 {
                    continue;
                }
                if !f.t.iter().any(|(x, _)| pairs.range((*x, *y, 0)..=(*x, *y, Id::MAX)).next().is_some()) {
                    continue;
                }
                let p = mul(f, &Lin::a(*y));
                let missing = p.t.iter().filter(|(i, _)| !present.contains(i)).count();
                if missing <= (effort.min(1) as usize) {
                    cnt += 1;
                    extra.push((*is_eq, p));
                }
            }
        }
        for (e, l) in extra {
            if e {
                eq.push(l)
            } else {
                ge.push(l)
            }
        }
    }
    if lp_infeasible(&ge, &eq) {
        return true;
    }
    if splits > 0 {
        // Case split on minima that matter.
        for (i, a, b) in mins.iter().take(3) {
            let s = Lin::a(*i);
            let mut r1 = rel.to_vec();
            if r1.contains(&Fact::Eq(norm_eq(&a.sub(&s)))) || r1.contains(&Fact::Eq(norm_eq(&b.sub(&s)))) {
                continue;
            }
            let mut r2 = rel.to_vec();
            r1.push(Fact::Eq(norm_eq(&a.sub(&s))));
            r1.push(Fact::Ge(b.sub(a)));
            r2.push(Fact::Eq(norm_eq(&b.sub(&s))));
            r2.push(Fact::Ge(a.sub(b)));
            return refute_rel(&r1, effort, splits - 1) && refute_rel(&r2, effort, splits - 1);
        }
    }
    false
}
fn norm_eq(l: &Lin) -> Lin {
    match Fact::Eq(l.clone()).norm() {
        Norm::F(Fact::Eq(l)) => l,
        _ => l.clone(),
    }
}

// ---- exact simplex -----------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
struct Q(i128, i128);
struct Overflow;
type R<T> = Result<T, Overflow>;
impl Q {
    fn i(n: i128) -> Q {
        Q(n, 1)
    }
    fn mk(n: i128, d: i128) -> Q {
        if d == 1 {
            return Q(n, 1);
        }
        let g = gcd(n.abs(), d.abs()).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Q(s * n / g, s * d / g)
    }
    fn add(self, o: Q) -> R<Q> {
        if self.1 == 1 && o.1 == 1 {
            return self.0.checked_add(o.0).map(Q::i).ok_or(Overflow);
        }
        let n = self.0.checked_mul(o.1).ok_or(Overflow)?.checked_add(o.0.checked_mul(self.1).ok_or(Overflow)?).ok_or(Overflow)?;
        Ok(Q::mk(n, self.1.checked_mul(o.1).ok_or(Overflow)?))
    }
    fn mul(self, o: Q) -> R<Q> {
        let n = self.0.checked_mul(o.0).ok_or(Overflow)?;
        if self.1 == 1 && o.1 == 1 {
            return Ok(Q::i(n));
        }
        Ok(Q::mk(n, self.1.checked_mul(o.1).ok_or(Overflow)?))
    }
    fn neg(self) -> Q {
        Q(-self.0, self.1)
    }
    fn inv(self) -> Q {
        if self.0 < 0 { Q(-self.1, -self.0) } else { Q(self.1, self.0) }
    }
    fn lt(self, o: Q) -> R<bool> {
        if self.1 == 1 && o.1 == 1 {
            return Ok(self.0 < o.0);
        }
        Ok(self.0.checked_mul(o.1).ok_or(Overflow)? < o.0.checked_mul(self.1).ok_or(Overflow)?)
    }
}

fn lp_infeasible(ge: &[Lin], eq: &[Lin]) -> bool {
    stat(2);
    match lp(ge, eq) {
        Ok(x) => x,
        Err(_) => {
            stat(7);
            false
        }
    }
}

fn lp(ge: &[Lin], eq: &[Lin]) -> R<bool> {
    // Eliminate equalities with a unit coefficient first.
    let mut ge: Vec<Lin> = ge.to_vec();
    let mut eq: Vec<Lin> = eq.to_vec();
    let mut hard: Vec<Lin> = vec![];
    while let Some(e) = eq.pop() {
        if let Some(k) = e.is_c() {
            if k != 0 {
                return Ok(true);
            }
            continue;
        }
        let g = e.gcd();
        if g > 1 && e.k % g != 0 {
            return Ok(true);
        }
        let e = if g > 1 { Lin { k: e.k / g, t: e.t.iter().map(|(i, c)| (*i, c / g)).collect() } } else { e };
        let Some((v, c)) = e.t.iter().rev().find(|(_, c)| c.abs() == 1).copied() else {
            hard.push(e);
            continue;
        };
        // v = -(e - c v)/c
        let rest = e.sub(&Lin::a(v).scale(c));
        let val = rest.scale(-c);
        let (lo, hi) = arange(v);
        let sub = |l: &Lin| -> Lin {
            match l.t.binary_search_by_key(&v, |x| x.0) {
                Ok(p) => {
                    let k = l.t[p].1;
                    let mut m = l.clone();
                    m.t.remove(p);
                    m.add(&val.scale(k))
                }
                Err(_) => l.clone(),
            }
        };
        for l in ge.iter_mut().chain(eq.iter_mut()).chain(hard.iter_mut()) {
            if l.t.binary_search_by_key(&v, |x| x.0).is_ok() {
                *l = sub(l);
            }
        }
        if let Some(lo) = lo {
            ge.push(val.addk(-lo));
        }
        if let Some(hi) = hi {
            ge.push(val.neg().addk(hi));
        }
    }
    for h in hard {
        ge.push(h.clone());
        ge.push(h.neg());
    }
    // Normalise, integer-tighten, dedup.
    let mut rows: BTreeMap<Vec<(Id, i128)>, i128> = BTreeMap::new();
    for l in ge {
        if let Some(k) = l.is_c() {
            if k < 0 {
                return Ok(true);
            }
            continue;
        }
        let (lo, hi) = l.range();
        if lo.is_some_and(|x| x >= 0) {
            continue;
        }
        if hi.is_some_and(|x| x < 0) {
            return Ok(true);
        }
        let g = l.gcd();
        let (t, k) = if g > 1 { (l.t.iter().map(|(i, c)| (*i, c / g)).collect(), l.k.div_euclid(g)) } else { (l.t, l.k) };
        let e = rows.entry(t).or_insert(k);
        if k < *e {
            *e = k;
        }
    }
    // Opposite parallel rows.
    for (t, k) in &rows {
        let n: Vec<(Id, i128)> = t.iter().map(|(i, c)| (*i, -c)).collect();
        if let Some(k2) = rows.get(&n) {
            if k + k2 < 0 {
                return Ok(true);
            }
        }
    }
    // Bounds from single-atom rows.
    let mut vars: Vec<Id> = vec![];
    let mut idx: HashMap<Id, usize> = HashMap::new();
    let mut lo: Vec<Option<Q>> = vec![];
    let mut hi: Vec<Option<Q>> = vec![];
    for t in rows.keys() {
        for (i, _) in t {
            if !idx.contains_key(i) {
                idx.insert(*i, vars.len());
                vars.push(*i);
                let (l, h) = arange(*i);
                lo.push(l.map(Q::i));
                hi.push(h.map(Q::i));
            }
        }
    }
    let mut real: Vec<(Vec<(usize, i128)>, i128)> = vec![];
    for (t, k) in &rows {
        if t.len() == 1 {
            let (i, c) = t[0];
            let v = idx[&i];
            // c*x + k >= 0
            if c > 0 {
                let b = -(k.div_euclid(c)); // x >= ceil(-k/c)
                if lo[v].is_none_or(|q| q.0 < b) {
                    lo[v] = Some(Q::i(b));
                }
            } else {
                let b = k.div_euclid(-c);
                if hi[v].is_none_or(|q| q.0 > b) {
                    hi[v] = Some(Q::i(b));
                }
            }
            if let (Some(l), Some(h)) = (lo[v], hi[v]) {
                if h.0 < l.0 {
                    return Ok(true);
                }
            }
        } else {
            real.push((t.iter().map(|(i, c)| (idx[i], *c)).collect(), *k));
        }
    }
    stat(3);
    // Bound propagation.
    for _ in 0..6 {
        let mut ch = false;
        for (t, k) in &real {
            // sum c_i x_i + k >= 0: x_i bound from the maxima of the others.
            let mut tot = Some(*k);
            let mut unb = None;
            let mut nunb = 0;
            for (v, c) in t {
                let m = if *c > 0 { hi[*v] } else { lo[*v] };
                match m.and_then(|q| q.0.checked_mul(*c)) {
                    Some(x) => tot = tot.and_then(|y| y.checked_add(x)),
                    None => {
                        nunb += 1;
                        unb = Some(*v);
                    }
                }
            }
            let Some(tot) = tot else { continue };
            if nunb == 0 && tot < 0 {
                return Ok(true);
            }
            for (v, c) in t {
                if nunb > 1 || (nunb == 1 && unb != Some(*v)) {
                    continue;
                }
                let own = if nunb == 1 { 0 } else { (if *c > 0 { hi[*v] } else { lo[*v] }).unwrap().0 * c };
                let rest = tot - own;
                if *c > 0 {
                    let b = -(rest.div_euclid(*c));
                    if lo[*v].is_none_or(|q| q.0 < b) {
                        lo[*v] = Some(Q::i(b));
                        ch = true;
                    }
                } else {
                    let b = rest.div_euclid(-c);
                    if hi[*v].is_none_or(|q| q.0 > b) {
                        hi[*v] = Some(Q::i(b));
                        ch = true;
                    }
                }
                if let (Some(l), Some(h)) = (lo[*v], hi[*v]) {
                    if h.0 < l.0 {
                        return Ok(true);
                    }
                }
            }
        }
        if !ch {
            break;
        }
    }
    stat(4);
    if real.is_empty() {
        return Ok(false);
    }
    match simplex::<Q>(&real, &lo, &hi, 400) {
        Err(_) => {
            stat(6);
            simplex::<big::R>(&real, &lo, &hi, 200)
        }
        r => r,
    }
}

trait Num: Clone {
    fn i(n: i128) -> Self;
    fn add(&self, o: &Self) -> R<Self>;
    fn mul(&self, o: &Self) -> R<Self>;
    fn neg(&self) -> Self;
    fn inv(&self) -> Self;
    fn lt(&self, o: &Self) -> R<bool>;
    fn sign(&self) -> i32;
}
impl Num for Q {
    fn i(n: i128) -> Q {
        Q(n, 1)
    }
    fn add(&self, o: &Q) -> R<Q> {
        Q::add(*self, *o)
    }
    fn mul(&self, o: &Q) -> R<Q> {
        Q::mul(*self, *o)
    }
    fn neg(&self) -> Q {
        Q::neg(*self)
    }
    fn inv(&self) -> Q {
        Q::inv(*self)
    }
    fn lt(&self, o: &Q) -> R<bool> {
        Q::lt(*self, *o)
    }
    fn sign(&self) -> i32 {
        self.0.signum() as i32
    }
}

/// Is `sum c x + k >= 0` for the rows infeasible within the bounds?
fn simplex<N: Num>(real: &[(Vec<(usize, i128)>, i128)], lo: &[Option<Q>], hi: &[Option<Q>], iters: usize) -> R<bool> {
    let nv = lo.len();
    let m = real.len();
    let total = nv + m;
    let bnd = |q: &Option<Q>| q.map(|q| N::i(q.0));
    let mut lo: Vec<Option<N>> = lo.iter().map(bnd).collect();
    let mut hi: Vec<Option<N>> = hi.iter().map(bnd).collect();
    let mut val: Vec<N> = vec![N::i(0); total];
    for v in 0..nv {
        val[v] = match (&lo[v], &hi[v]) {
            (Some(l), Some(h)) => {
                if l.sign() >= 0 { l.clone() } else if h.sign() <= 0 { h.clone() } else { N::i(0) }
            }
            (Some(l), None) => if l.sign() > 0 { l.clone() } else { N::i(0) },
            (None, Some(h)) => if h.sign() < 0 { h.clone() } else { N::i(0) },
            _ => N::i(0),
        };
    }
    for (_, k) in real {
        lo.push(Some(N::i(-k)));
        hi.push(None);
    }
    // rows: basic variable -> sparse combination of non-basic ones.
    let mut row: Vec<Option<Vec<(usize, N)>>> = vec![None; total];
    for (j, (t, _)) in real.iter().enumerate() {
        let mut r: Vec<(usize, N)> = t.iter().map(|(v, c)| (*v, N::i(*c))).collect();
        r.sort_by_key(|x| x.0);
        let mut s = N::i(0);
        for (v, c) in &r {
            s = s.add(&val[*v].mul(c)?)?;
        }
        val[nv + j] = s;
        row[nv + j] = Some(r);
    }
    for _iter in 0..iters {
        // Smallest violated basic variable.
        let mut pick = None;
        for b in 0..total {
            if row[b].is_some() {
                if let Some(l) = &lo[b] {
                    if val[b].lt(l)? {
                        pick = Some((b, true, l.clone()));
                        break;
                    }
                }
                if let Some(h) = &hi[b] {
                    if h.lt(&val[b])? {
                        pick = Some((b, false, h.clone()));
                        break;
                    }
                }
            }
        }
        let Some((b, up, target)) = pick else { return Ok(false) };
        let r = row[b].clone().unwrap();
        let mut ent = None;
        for (v, c) in &r {
            let pos = c.sign() > 0;
            let can = if pos == up {
                match &hi[*v] {
                    Some(h) => val[*v].lt(h)?,
                    None => true,
                }
            } else {
                match &lo[*v] {
                    Some(l) => l.lt(&val[*v])?,
                    None => true,
                }
            };
            if can {
                ent = Some((*v, c.clone()));
                break;
            }
        }
        let Some((n, c)) = ent else { return Ok(true) };
        // Pivot b (leaves) with n (enters).
        let theta = target.add(&val[b].neg())?.mul(&c.inv())?;
        val[b] = target;
        val[n] = val[n].add(&theta)?;
        // n = (b - sum others)/c
        let ci = c.inv();
        let mut nr: Vec<(usize, N)> = vec![];
        for (v, k) in &r {
            if *v != n {
                nr.push((*v, k.mul(&ci)?.neg()));
            }
        }
        nr.push((b, ci));
        nr.sort_by_key(|x| x.0);
        row[b] = None;
        for x in 0..total {
            if x == n {
                continue;
            }
            let Some(rx) = &row[x] else { continue };
            let Ok(p) = rx.binary_search_by_key(&n, |y| y.0) else { continue };
            let k = rx[p].1.clone();
            // rx - k n + k * nr
            let mut out = Vec::with_capacity(rx.len() + nr.len());
            let (mut i, mut j) = (0, 0);
            while i < rx.len() || j < nr.len() {
                if i < rx.len() && rx[i].0 == n {
                    i += 1;
                    continue;
                }
                if j >= nr.len() || (i < rx.len() && rx[i].0 < nr[j].0) {
                    out.push(rx[i].clone());
                    i += 1;
                } else if i >= rx.len() || nr[j].0 < rx[i].0 {
                    out.push((nr[j].0, nr[j].1.mul(&k)?));
                    j += 1;
                } else {
                    let q = rx[i].1.add(&nr[j].1.mul(&k)?)?;
                    if q.sign() != 0 {
                        out.push((rx[i].0, q));
                    }
                    i += 1;
                    j += 1;
                }
            }
            val[x] = val[x].add(&theta.mul(&k)?)?;
            row[x] = Some(out);
        }
        row[n] = Some(nr);
    }
    stat(5);
    Ok(false)
}

/// Rationals of any size, for the systems whose numbers outgrow 128 bits.
mod big {
    use super::{Num, Overflow};
    type M = Vec<u32>;
    fn trim(mut a: M) -> M {
        while a.last() == Some(&0) {
            a.pop();
        }
        a
    }
    fn of(mut n: u128) -> M {
        let mut v = vec![];
        while n > 0 {
            v.push(n as u32);
            n >>= 32;
        }
        v
    }
    fn cmp(a: &M, b: &M) -> std::cmp::Ordering {
        a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
    }
    fn add(a: &M, b: &M) -> M {
        let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
        let mut r = Vec::with_capacity(a.len() + 1);
        let mut c = 0u64;
        for i in 0..a.len() {
            c += a[i] as u64 + b.get(i).copied().unwrap_or(0) as u64;
            r.push(c as u32);
            c >>= 32;
        }
        r.push(c as u32);
        trim(r)
    }
    /// a - b for a >= b.
    fn sub(a: &M, b: &M) -> M {
        let mut r = Vec::with_capacity(a.len());
        let mut c = 0i64;
        for i in 0..a.len() {
            c += a[i] as i64 - b.get(i).copied().unwrap_or(0) as i64;
            r.push(c as u32);
            c >>= 32;
        }
        trim(r)
    }
    fn mul(a: &M, b: &M) -> M {
        let mut r = vec![0u32; a.len() + b.len()];
        for i in 0..a.len() {
            let mut c = 0u64;
            for j in 0..b.len() {
                c += a[i] as u64 * b[j] as u64 + r[i + j] as u64;
                r[i + j] = c as u32;
                c >>= 32;
            }
            r[i + b.len()] = c as u32;
        }
        trim(r)
    }
    fn shr1(a: &mut M) {
        let mut c = 0;
        for x in a.iter_mut().rev() {
            let n = *x << 31;
            *x = *x >> 1 | c;
            c = n;
        }
        if a.last() == Some(&0) {
            a.pop();
        }
    }
    fn shl(a: &M, n: usize) -> M {
        let mut r = vec![0u32; n / 32];
        let s = n % 32;
        let mut c = 0u32;
        for x in a {
            r.push(if s == 0 { *x } else { x << s | c });
            c = if s == 0 { 0 } else { x >> (32 - s) };
        }
        r.push(c);
        trim(r)
    }
    fn bits(a: &M) -> usize {
        a.last().map_or(0, |x| a.len() * 32 - x.leading_zeros() as usize)
    }
    /// a / b.
    fn div(a: &M, b: &M) -> (M, M) {
        if cmp(a, b).is_lt() {
            return (vec![], a.clone());
        }
        if b.len() == 1 {
            let mut q = vec![0u32; a.len()];
            let mut r = 0u64;
            for i in (0..a.len()).rev() {
                r = r << 32 | a[i] as u64;
                q[i] = (r / b[0] as u64) as u32;
                r %= b[0] as u64;
            }
            return (trim(q), of(r as u128));
        }
        if a.len() <= 4 {
            let n = |x: &M| x.iter().rev().fold(0u128, |s, d| s << 32 | *d as u128);
            let (x, y) = (n(a), n(b));
            return (of(x / y), of(x % y));
        }
        let k = bits(a) - bits(b);
        let mut d = shl(b, k);
        let mut r = a.clone();
        let mut q = vec![0u32; k / 32 + 1];
        for i in (0..=k).rev() {
            if cmp(&r, &d).is_ge() {
                r = sub(&r, &d);
                q[i / 32] |= 1 << (i % 32);
            }
            shr1(&mut d);
        }
        (trim(q), r)
    }
    fn gcd(a: &M, b: &M) -> M {
        let (mut a, mut b) = (a.clone(), b.clone());
        while !b.is_empty() {
            let r = div(&a, &b).1;
            a = b;
            b = r;
        }
        a
    }
    #[derive(Clone)]
    pub struct R {
        neg: bool,
        n: M,
        d: M,
    }
    fn mk(neg: bool, n: M, d: M) -> super::R<R> {
        if n.is_empty() {
            return Ok(R { neg: false, n, d: vec![1] });
        }
        let (n, d) = if d == [1] {
            (n, d)
        } else {
            let g = gcd(&n, &d);
            if g == [1] { (n, d) } else { (div(&n, &g).0, div(&d, &g).0) }
        };
        if n.len() > 40 || d.len() > 40 {
            return Err(Overflow);
        }
        Ok(R { neg, n, d })
    }
    impl Num for R {
        fn i(n: i128) -> R {
            R { neg: n < 0, n: of(n.unsigned_abs()), d: vec![1] }
        }
        fn add(&self, o: &R) -> super::R<R> {
            let (x, y) = (mul(&self.n, &o.d), mul(&o.n, &self.d));
            let d = mul(&self.d, &o.d);
            if self.neg == o.neg {
                mk(self.neg, add(&x, &y), d)
            } else if cmp(&x, &y).is_ge() {
                mk(self.neg, sub(&x, &y), d)
            } else {
                mk(o.neg, sub(&y, &x), d)
            }
        }
        fn mul(&self, o: &R) -> super::R<R> {
            mk(self.neg != o.neg, mul(&self.n, &o.n), mul(&self.d, &o.d))
        }
        fn neg(&self) -> R {
            R { neg: !self.neg && !self.n.is_empty(), n: self.n.clone(), d: self.d.clone() }
        }
        fn inv(&self) -> R {
            R { neg: self.neg, n: self.d.clone(), d: self.n.clone() }
        }
        fn lt(&self, o: &R) -> super::R<bool> {
            if self.neg != o.neg {
                return Ok(self.neg);
            }
            let c = cmp(&mul(&self.n, &o.d), &mul(&o.n, &self.d));
            Ok(if self.neg { c.is_gt() } else { c.is_lt() })
        }
        fn sign(&self) -> i32 {
            if self.n.is_empty() { 0 } else if self.neg { -1 } else { 1 }
        }
    }
}
