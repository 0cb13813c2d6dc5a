//! Terms: integer values as linear forms over interned atoms, and byte-string
//! contents. Everything is hash-consed in one thread-local arena.
use std::cell::RefCell;
use std::collections::HashMap;

pub type Id = u32;
pub type Cid = u32;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Lin {
    pub k: i128,
    pub t: Vec<(Id, i128)>,
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Arg {
    L(Lin),
    C(Cid),
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Atom {
    /// Unknown value named by a deterministic key, with its range.
    Sym(u64, Option<i128>, Option<i128>, bool),
    Load(Cid, Lin, u8, bool),
    /// floor(l / d), d > 0 constant.
    Div(Lin, i128),
    DivL(Lin, Lin),
    Mul(Vec<Id>),
    Bits(u8, Lin, Lin, u32),
    Bit(Lin, u32),
    Pow2(Lin),
    Min(Lin, Lin),
    Fun(&'static str, Vec<Arg>, Option<i128>, Option<i128>),
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Cont {
    /// Unknown bytes.
    Fresh(u64, bool),
    /// The device, addressed from byte 0.
    Dev,
    Zero,
    Const(Vec<u8>),
    Patch { base: Cid, off: Lin, len: Lin, src: Cid, soff: Lin },
    Int(Lin, u8, bool),
    Fill(Lin),
}
#[derive(Clone)]
pub struct Info {
    pub a: Atom,
    pub lo: Option<i128>,
    pub hi: Option<i128>,
    pub imp: bool,
}
#[derive(Default)]
pub struct Arena {
    pub atoms: Vec<Info>,
    ids: HashMap<Atom, Id>,
    conts: Vec<(Cont, bool)>,
    cids: HashMap<Cont, Cid>,
    pub names: HashMap<u64, String>,
}
thread_local! {
    pub static AR: RefCell<Arena> = RefCell::new(Arena::default());
}
pub fn name(key: u64, f: impl FnOnce() -> String) {
    AR.with(|a| {
        a.borrow_mut().names.entry(key).or_insert_with(f);
    });
}
pub fn info(i: Id) -> Info {
    AR.with(|a| a.borrow().atoms[i as usize].clone())
}
pub fn atom(i: Id) -> Atom {
    AR.with(|a| a.borrow().atoms[i as usize].a.clone())
}
pub fn arange(i: Id) -> (Option<i128>, Option<i128>) {
    AR.with(|a| {
        let a = a.borrow();
        let x = &a.atoms[i as usize];
        (x.lo, x.hi)
    })
}
pub fn imp_atom(i: Id) -> bool {
    AR.with(|a| a.borrow().atoms[i as usize].imp)
}
pub fn imp_cont(c: Cid) -> bool {
    AR.with(|a| a.borrow().conts[c as usize].1)
}
pub fn cont(c: Cid) -> Cont {
    AR.with(|a| a.borrow().conts[c as usize].0.clone())
}
pub fn mkc(c: Cont) -> Cid {
    if let Some(i) = AR.with(|a| a.borrow().cids.get(&c).copied()) {
        return i;
    }
    let imp = match &c {
        Cont::Fresh(_, i) => *i,
        Cont::Patch { base, off, len, src, soff } => imp_cont(*base) || imp_cont(*src) || off.imp() || len.imp() || soff.imp(),
        Cont::Int(l, ..) | Cont::Fill(l) => l.imp(),
        _ => false,
    };
    AR.with(|a| {
        let mut a = a.borrow_mut();
        let i = a.conts.len() as Cid;
        a.conts.push((c.clone(), imp));
        a.cids.insert(c, i);
        i
    })
}
pub fn mk(a: Atom) -> Id {
    if let Some(i) = AR.with(|r| r.borrow().ids.get(&a).copied()) {
        return i;
    }
    let (lo, hi, imp) = facts_of(&a);
    if matches!(a, Atom::Sym(..)) && (lo.is_none() || hi.is_none()) && !imp && std::env::var("VF_RANGE").is_ok() {
        eprintln!("RANGE {:?} {}", a, std::backtrace::Backtrace::force_capture().to_string().lines().filter(|l| l.contains("main::")).take(6).collect::<Vec<_>>().join(" "));
    }
    AR.with(|r| {
        let mut r = r.borrow_mut();
        let i = r.atoms.len() as Id;
        r.atoms.push(Info { a: a.clone(), lo, hi, imp });
        r.ids.insert(a, i);
        i
    })
}
fn facts_of(a: &Atom) -> (Option<i128>, Option<i128>, bool) {
    match a {
        Atom::Sym(_, l, h, i) => (*l, *h, *i),
        Atom::Load(c, o, w, _) => (Some(0), Some((1i128 << (8 * *w as u32)) - 1), imp_cont(*c) || o.imp()),
        Atom::Div(l, d) => {
            let (a, b) = l.range();
            (a.map(|x| x.div_euclid(*d)), b.map(|x| x.div_euclid(*d)), l.imp())
        }
        Atom::DivL(a, b) => {
            let (al, ah) = a.range();
            let (bl, _) = b.range();
            let lo = if al.is_some_and(|x| x >= 0) { Some(0) } else { None };
            let d = bl.unwrap_or(1).max(1);
            (lo, ah.map(|x| if x >= 0 { x / d } else { 0 }), a.imp() || b.imp())
        }
        Atom::Mul(v) => {
            let mut r = (Some(1), Some(1));
            let mut imp = false;
            for i in v {
                r = rmul(r, arange(*i));
                imp |= imp_atom(*i);
            }
            (r.0, r.1, imp)
        }
        Atom::Bits(_, a, b, w) => (Some(0), Some((1i128 << w) - 1), a.imp() || b.imp()),
        Atom::Bit(l, _) => (Some(0), Some(1), l.imp()),
        Atom::Pow2(l) => {
            let (a, b) = l.range();
            let p = |x: i128| if (0..126).contains(&x) { Some(1i128 << x) } else { None };
            (Some(a.and_then(p).unwrap_or(1)), b.and_then(p), l.imp())
        }
        Atom::Min(a, b) => {
            let (al, ah) = a.range();
            let (bl, bh) = b.range();
            let lo = match (al, bl) {
                (Some(x), Some(y)) => Some(x.min(y)),
                _ => None,
            };
            let hi = match (ah, bh) {
                (Some(x), Some(y)) => Some(x.min(y)),
                (x, y) => x.or(y),
            };
            (lo, hi, a.imp() || b.imp())
        }
        Atom::Fun(_, v, l, h) => (
            *l,
            *h,
            v.iter().any(|x| match x {
                Arg::L(l) => l.imp(),
                Arg::C(c) => imp_cont(*c),
            }),
        ),
    }
}
pub type Rng = (Option<i128>, Option<i128>);
pub fn rmul(a: Rng, b: Rng) -> Rng {
    if let (Some(al), Some(bl)) = (a.0, b.0) {
        if al >= 0 && bl >= 0 {
            let hi = match (a.1, b.1) {
                (Some(x), Some(y)) => x.checked_mul(y),
                _ => None,
            };
            return (Some(al.checked_mul(bl).unwrap_or(0)), hi);
        }
    }
    if let (Some(al), Some(ah), Some(bl), Some(bh)) = (a.0, a.1, b.0, b.1) {
        let v: Option<Vec<i128>> = [(al, bl), (al, bh), (ah, bl), (ah, bh)].iter().map(|(x, y)| x.checked_mul(*y)).collect();
        if let Some(v) = v {
            return (v.iter().min().copied(), v.iter().max().copied());
        }
    }
    (None, None)
}

impl Lin {
    pub fn c(k: i128) -> Lin {
        Lin { k, t: vec![] }
    }
    pub fn a(i: Id) -> Lin {
        Lin { k: 0, t: vec![(i, 1)] }
    }
    pub fn is_c(&self) -> Option<i128> {
        if self.t.is_empty() { Some(self.k) } else { None }
    }
    /// Exactly atom + k.
    pub fn single(&self) -> Option<(Id, i128)> {
        if self.t.len() == 1 && self.t[0].1 == 1 { Some((self.t[0].0, self.k)) } else { None }
    }
    pub fn imp(&self) -> bool {
        self.t.iter().any(|(i, _)| imp_atom(*i))
    }
    fn comb(&self, o: &Lin, m: i128) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        let mut bad = false;
        let mut mulm = |x: i128| {
            x.checked_mul(m).unwrap_or_else(|| {
                bad = true;
                0
            })
        };
        let k2 = mulm(o.k);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                let c = mulm(o.t[j].1);
                if c != 0 {
                    t.push((o.t[j].0, c));
                }
                j += 1;
            } else {
                let c = self.t[i].1.wrapping_add(mulm(o.t[j].1));
                if c != 0 {
                    t.push((self.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        let k = self.k.checked_add(k2);
        if bad || k.is_none() || t.iter().any(|x| x.1.abs() > 1 << 100) || k.unwrap().abs() > 1 << 120 {
            return Lin::a(mk(Atom::Sym(hash(&(77u8, self, o, m)), None, None, true)));
        }
        Lin { k: k.unwrap(), t }
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.comb(o, 1)
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.comb(o, -1)
    }
    pub fn addk(&self, k: i128) -> Lin {
        Lin { k: self.k.saturating_add(k), t: self.t.clone() }
    }
    pub fn scale(&self, m: i128) -> Lin {
        if m == 0 {
            return Lin::c(0);
        }
        Lin::c(0).comb(self, m)
    }
    pub fn neg(&self) -> Lin {
        self.scale(-1)
    }
    pub fn range(&self) -> Rng {
        let mut lo = Some(self.k);
        let mut hi = Some(self.k);
        for (i, c) in &self.t {
            let (l, h) = arange(*i);
            let (l, h) = if *c > 0 { (l, h) } else { (h, l) };
            lo = match (lo, l.and_then(|x| x.checked_mul(*c))) {
                (Some(a), Some(b)) => a.checked_add(b),
                _ => None,
            };
            hi = match (hi, h.and_then(|x| x.checked_mul(*c))) {
                (Some(a), Some(b)) => a.checked_add(b),
                _ => None,
            };
        }
        (lo, hi)
    }
    pub fn fits(&self, lo: i128, hi: i128) -> bool {
        let (l, h) = self.range();
        l.is_some_and(|x| x >= lo) && h.is_some_and(|x| x <= hi)
    }
    pub fn gcd(&self) -> i128 {
        let mut g = 0;
        for (_, c) in &self.t {
            g = gcd(g, c.abs());
        }
        g
    }
}
pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a, b);
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            let mut x = self.0;
            x ^= x >> 33;
            x = x.wrapping_mul(0xff51afd7ed558ccd);
            x ^ (x >> 33)
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
                self.0 ^= self.0 >> 29;
            }
        }
    }
    thread_local!(static SALT: u64 = std::env::var("VF_SALT").ok().and_then(|x| x.parse().ok()).unwrap_or(0));
    let mut h = F(0xcbf29ce484222325 ^ SALT.with(|s| *s));
    t.hash(&mut h);
    h.finish()
}
pub fn sym(key: u64, lo: Option<i128>, hi: Option<i128>) -> Lin {
    Lin::a(mk(Atom::Sym(key, lo, hi, false)))
}
pub fn sym_imp(key: u64, lo: Option<i128>, hi: Option<i128>) -> Lin {
    Lin::a(mk(Atom::Sym(key, lo, hi, true)))
}
pub fn sym_u(key: u64, bits: u32) -> Lin {
    sym(key, Some(0), Some(umax(bits)))
}
pub fn umax(bits: u32) -> i128 {
    if bits >= 127 { i128::MAX } else { (1i128 << bits) - 1 }
}
pub fn fun(tag: &'static str, args: Vec<Arg>, lo: Option<i128>, hi: Option<i128>) -> Lin {
    Lin::a(mk(Atom::Fun(tag, args, lo, hi)))
}

/// floor(l / d).
pub fn div_c(l: &Lin, d: i128) -> Lin {
    if d == 1 {
        return l.clone();
    }
    if let Some(k) = l.is_c() {
        return Lin::c(k.div_euclid(d));
    }
    let mut q = Lin::c(0);
    let mut r = Lin::c(0);
    for (i, c) in &l.t {
        if c % d == 0 {
            q = q.add(&Lin::a(*i).scale(c / d));
        } else {
            r = r.add(&Lin::a(*i).scale(*c));
        }
    }
    // Split the constant so that the remainder part has the smallest one.
    let kq = l.k.div_euclid(d);
    let kr = l.k.rem_euclid(d);
    q = q.addk(kq);
    r = r.addk(kr);
    if r.fits(0, d - 1) {
        return q;
    }
    if r.t.is_empty() {
        return q;
    }
    // (g*x + k) / d with g | d: floor((x + k/g) / (d/g)).
    let g = gcd(r.gcd(), d);
    if g > 1 {
        let mut r2 = Lin { k: 0, t: r.t.iter().map(|(i, c)| (*i, c / g)).collect() };
        r2.k = r.k.div_euclid(g);
        return q.add(&div_c(&r2, d / g));
    }
    // Nested floors.
    if let Some((i, 0)) = r.single() {
        if let Atom::Div(x, e) = atom(i) {
            if let Some(m) = e.checked_mul(d) {
                return q.add(&div_c(&x, m));
            }
        }
    }
    q.add(&Lin::a(mk(Atom::Div(r, d))))
}
pub fn rem_c(l: &Lin, d: i128) -> Lin {
    l.sub(&div_c(l, d).scale(d))
}
pub fn trunc(l: &Lin, bits: u32) -> Lin {
    if l.fits(0, umax(bits)) {
        return l.clone();
    }
    rem_c(l, 1i128 << bits)
}
/// Value of the low `bits` bits as a signed number.
pub fn sext(l: &Lin, bits: u32) -> Lin {
    let h = 1i128 << (bits - 1);
    if l.fits(-h, h - 1) {
        return l.clone();
    }
    trunc(&l.addk(h), bits).addk(-h)
}
pub fn mul(a: &Lin, b: &Lin) -> Lin {
    if let Some(k) = a.is_c() {
        return b.scale(k);
    }
    if let Some(k) = b.is_c() {
        return a.scale(k);
    }
    let mut r = Lin::c(0);
    let one = (u32::MAX, 1);
    let at: Vec<(Id, i128)> = a.t.iter().copied().chain(if a.k != 0 { Some((u32::MAX, a.k)) } else { None }).collect();
    let bt: Vec<(Id, i128)> = b.t.iter().copied().chain(if b.k != 0 { Some((u32::MAX, b.k)) } else { None }).collect();
    for (i, c) in &at {
        for (j, d) in &bt {
            let Some(m) = c.checked_mul(*d) else {
                return Lin::a(mk(Atom::Sym(hash(&(78u8, a, b)), None, None, true)));
            };
            let x = if *i == one.0 && *j == one.0 {
                Lin::c(1)
            } else if *i == one.0 {
                Lin::a(*j)
            } else if *j == one.0 {
                Lin::a(*i)
            } else {
                mono(*i, *j)
            };
            r = r.add(&x.scale(m));
        }
    }
    r
}
pub fn factors(i: Id) -> Vec<Id> {
    match atom(i) {
        Atom::Mul(v) => v,
        _ => vec![i],
    }
}
fn mono(i: Id, j: Id) -> Lin {
    if let (Atom::Pow2(a), Atom::Pow2(b)) = (atom(i), atom(j)) {
        return pow2(&a.add(&b));
    }
    let mut v = factors(i);
    v.extend(factors(j));
    v.sort();
    Lin::a(mk(Atom::Mul(v)))
}
pub fn monomial(mut v: Vec<Id>) -> Lin {
    v.sort();
    if v.len() == 1 {
        return Lin::a(v[0]);
    }
    Lin::a(mk(Atom::Mul(v)))
}
pub fn pow2(l: &Lin) -> Lin {
    if let Some(k) = l.is_c() {
        if (0..100).contains(&k) {
            return Lin::c(1i128 << k);
        }
    }
    if l.k != 0 && l.k.abs() < 64 {
        let b = Lin { k: 0, t: l.t.clone() };
        if l.k > 0 && b.range().0.is_some_and(|x| x >= 0) {
            return pow2(&b).scale(1i128 << l.k);
        }
    }
    Lin::a(mk(Atom::Pow2(l.clone())))
}
/// Exact quotient of every monomial by the atom, if it divides.
pub fn mono_div(i: Id, by: Id) -> Option<Lin> {
    let mut v = factors(i);
    let p = v.iter().position(|x| *x == by)?;
    v.remove(p);
    Some(if v.is_empty() { Lin::c(1) } else { monomial(v) })
}
/// floor(a / b) for b > 0.
pub fn div_l(a: &Lin, b: &Lin) -> Lin {
    if let Some(k) = b.is_c() {
        if k > 0 {
            return div_c(a, k);
        }
        return Lin::a(mk(Atom::Sym(hash(&(79u8, a, b)), None, None, true)));
    }
    if a.is_c() == Some(0) {
        return Lin::c(0);
    }
    if a == b {
        return Lin::c(1);
    }
    // Take out the part that is a multiple of b.
    if b.t.len() == 1 && b.k == 0 {
        let (bi, bc) = b.t[0];
        let mut q = Lin::c(0);
        let mut r = Lin::c(a.k);
        for (i, c) in &a.t {
            match mono_div(*i, bi) {
                Some(m) if c % bc == 0 => q = q.add(&m.scale(c / bc)),
                _ => r = r.add(&Lin::a(*i).scale(*c)),
            }
        }
        if r.is_c() == Some(0) {
            return q;
        }
        // 2^k / 2^e for constants below: 1024 * Pow2(s) divides 2^m never exactly in general.
        if !q.t.is_empty() || q.k != 0 {
            return q.add(&div_l(&r, b));
        }
    }
    let (_, ah) = a.range();
    let (al, _) = a.range();
    let (bl, _) = b.range();
    if let (Some(ah), Some(bl), Some(al)) = (ah, bl, al) {
        if al >= 0 && ah < bl {
            return Lin::c(0);
        }
    }
    Lin::a(mk(Atom::DivL(a.clone(), b.clone())))
}
pub fn min(a: &Lin, b: &Lin) -> Lin {
    let d = a.sub(b);
    let (l, h) = d.range();
    if h.is_some_and(|x| x <= 0) {
        return a.clone();
    }
    if l.is_some_and(|x| x >= 0) {
        return b.clone();
    }
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    Lin::a(mk(Atom::Min(a.clone(), b.clone())))
}
pub fn max(a: &Lin, b: &Lin) -> Lin {
    min(&a.neg(), &b.neg()).neg()
}
pub fn bit(l: &Lin, k: u32) -> Lin {
    if let Some(c) = l.is_c() {
        return Lin::c((c >> k) & 1);
    }
    let m = 1i128 << (k + 1);
    let mut b = Lin { k: l.k.rem_euclid(m), t: l.t.iter().filter(|(_, c)| c % m != 0).copied().collect() };
    if let Some(c) = b.is_c() {
        return Lin::c((c >> k) & 1);
    }
    if b.fits(0, (1i128 << k) - 1) {
        return Lin::c(0);
    }
    let mut kk = k;
    while kk > 0 && b.k % 2 == 0 && b.t.iter().all(|(_, c)| c % 2 == 0) {
        b = Lin { k: b.k / 2, t: b.t.iter().map(|(i, c)| (*i, c / 2)).collect() };
        kk -= 1;
    }
    // Drop low parts that cannot reach bit kk: (2^j * A + B) with 0 <= B < 2^j, j <= kk.
    for j in (1..=kk).rev() {
        let p = 1i128 << j;
        let hi: Vec<(Id, i128)> = b.t.iter().filter(|(_, c)| c % p == 0).copied().collect();
        if hi.is_empty() || hi.len() == b.t.len() {
            continue;
        }
        let lo = Lin { k: b.k.rem_euclid(p), t: b.t.iter().filter(|(_, c)| c % p != 0).copied().collect() };
        if lo.fits(0, p - 1) {
            let h = Lin { k: b.k.div_euclid(p), t: hi.iter().map(|(i, c)| (*i, c / p)).collect() };
            return bit(&h, kk - j);
        }
    }
    if let Some((i, 0)) = b.single() {
        match atom(i) {
            Atom::Bit(..) if kk == 0 => return b,
            Atom::Div(x, d) if d.count_ones() == 1 => return bit(&x, kk + d.trailing_zeros()),
            Atom::Load(c, o, w, be) if w > 1 => {
                let byte = (kk / 8) as i128;
                let o2 = if be { o.addk(w as i128 - 1 - byte) } else { o.addk(byte) };
                return bit(&load_raw(c, &o2, 1, false), kk % 8);
            }
            _ => {}
        }
    }
    Lin::a(mk(Atom::Bit(b, kk)))
}
fn runs(m: i128) -> Vec<(u32, u32)> {
    let mut v = vec![];
    let mut k = 0;
    while k < 126 {
        if (m >> k) & 1 == 1 {
            let s = k;
            while k < 126 && (m >> k) & 1 == 1 {
                k += 1;
            }
            v.push((s, k));
        } else {
            k += 1;
        }
    }
    v
}
pub fn bitand(a: &Lin, b: &Lin, w: u32) -> Lin {
    if let (Some(x), Some(y)) = (a.is_c(), b.is_c()) {
        return Lin::c(x & y);
    }
    let (x, m) = match (a.is_c(), b.is_c()) {
        (_, Some(m)) => (a, m),
        (Some(m), _) => (b, m),
        _ => {
            if a == b {
                return a.clone();
            }
            return bits_op(0, a, b, w);
        }
    };
    if m < 0 || !x.range().0.is_some_and(|l| l >= 0) {
        return bits_op(0, a, b, w);
    }
    let rs = runs(m & umax(w));
    let mut r = Lin::c(0);
    let single_bits = rs.len() > 1;
    for (s, e) in rs {
        if e - s == 1 || (single_bits && e - s <= 24) {
            for k in s..e {
                r = r.add(&bit(x, k).scale(1i128 << k));
            }
        } else {
            r = r.add(&rem_c(&div_c(x, 1i128 << s), 1i128 << (e - s)).scale(1i128 << s));
        }
    }
    r
}
fn bits_op(op: u8, a: &Lin, b: &Lin, w: u32) -> Lin {
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    Lin::a(mk(Atom::Bits(op, a.clone(), b.clone(), w)))
}
/// Largest power of two dividing every coefficient and the constant.
fn low_zeros(l: &Lin) -> u32 {
    let mut z = if l.k == 0 { 126 } else { l.k.trailing_zeros() };
    for (_, c) in &l.t {
        z = z.min(c.trailing_zeros());
    }
    z
}
pub fn bitor(a: &Lin, b: &Lin, w: u32) -> Lin {
    if let (Some(x), Some(y)) = (a.is_c(), b.is_c()) {
        return Lin::c(x | y);
    }
    if a.is_c() == Some(0) {
        return b.clone();
    }
    if b.is_c() == Some(0) {
        return a.clone();
    }
    for (x, y) in [(a, b), (b, a)] {
        let z = low_zeros(x);
        if y.fits(0, umax(z)) && x.range().0.is_some_and(|l| l >= 0) {
            return a.add(b);
        }
    }
    if a == b {
        return a.clone();
    }
    bits_op(1, a, b, w)
}
pub fn bitxor(a: &Lin, b: &Lin, w: u32) -> Lin {
    if let (Some(x), Some(y)) = (a.is_c(), b.is_c()) {
        return Lin::c(x ^ y);
    }
    if a == b {
        return Lin::c(0);
    }
    for (x, y) in [(a, b), (b, a)] {
        if y.is_c() == Some(0) {
            return x.clone();
        }
        if y.is_c() == Some(umax(w)) && x.fits(0, umax(w)) {
            return Lin::c(umax(w)).sub(x);
        }
    }
    bits_op(2, a, b, w)
}
/// Load from a content without using any facts.
pub fn load_raw(c: Cid, off: &Lin, w: u8, be: bool) -> Lin {
    let be = be && w > 1;
    match cont(c) {
        Cont::Zero => return Lin::c(0),
        Cont::Fill(b) => {
            let mut r = Lin::c(0);
            for _ in 0..w {
                r = r.scale(256).add(&b);
            }
            return r;
        }
        Cont::Const(v) => {
            if let Some(o) = off.is_c() {
                if o >= 0 && o as usize + w as usize <= v.len() {
                    let mut r: i128 = 0;
                    for j in 0..w as usize {
                        let b = v[o as usize + if be { j } else { w as usize - 1 - j }];
                        r = (r << 8) | b as i128;
                    }
                    return Lin::c(r);
                }
            }
        }
        Cont::Int(l, iw, ibe) => {
            if let Some(o) = off.is_c() {
                if o == 0 && w == iw && be == (ibe && iw > 1) {
                    return l;
                }
                if o >= 0 && o + w as i128 <= iw as i128 {
                    let mut r = Lin::c(0);
                    for j in 0..w as i128 {
                        let p = o + if be { j } else { w as i128 - 1 - j };
                        let sig = if ibe { iw as i128 - 1 - p } else { p };
                        let b = rem_c(&div_c(&l, 1i128 << (8 * sig)), 256);
                        r = r.scale(256).add(&b);
                    }
                    return r;
                }
            }
        }
        _ => {}
    }
    Lin::a(mk(Atom::Load(c, off.clone(), w, be)))
}

// ---- substitution ----------------------------------------------------------

pub struct Subst {
    pub m: HashMap<Id, Lin>,
    pub cm: HashMap<Cid, (Cid, Lin)>,
    memo: HashMap<Id, Option<Lin>>,
    cmemo: HashMap<Cid, Option<(Cid, Lin)>>,
}
impl Subst {
    pub fn new(m: HashMap<Id, Lin>) -> Subst {
        Subst { m, cm: HashMap::new(), memo: HashMap::new(), cmemo: HashMap::new() }
    }
    pub fn is_empty(&self) -> bool {
        self.m.is_empty() && self.cm.is_empty()
    }
    pub fn lin(&mut self, l: &Lin) -> Lin {
        let mut out: Option<Lin> = None;
        for (n, (i, c)) in l.t.iter().enumerate() {
            match self.atom(*i) {
                None => {
                    if let Some(o) = &mut out {
                        *o = o.add(&Lin::a(*i).scale(*c));
                    }
                }
                Some(x) => {
                    let o = out.get_or_insert_with(|| Lin { k: l.k, t: l.t[..n].to_vec() });
                    *o = o.add(&x.scale(*c));
                }
            }
        }
        out.unwrap_or_else(|| l.clone())
    }
    /// None: unchanged.
    fn atom(&mut self, i: Id) -> Option<Lin> {
        if let Some(x) = self.m.get(&i) {
            return Some(x.clone());
        }
        if let Some(r) = self.memo.get(&i) {
            return r.clone();
        }
        let a = atom(i);
        let r = match &a {
            Atom::Sym(..) => None,
            Atom::Load(c, o, w, be) => {
                let (c2, d) = self.cont(*c);
                let o2 = self.lin(o).add(&d);
                if c2 == *c && o2 == *o { None } else { Some(load_raw(c2, &o2, *w, *be)) }
            }
            Atom::Div(l, d) => {
                let n = self.lin(l);
                if n == *l { None } else { Some(div_c(&n, *d)) }
            }
            Atom::DivL(x, y) => {
                let (n, m) = (self.lin(x), self.lin(y));
                if n == *x && m == *y { None } else { Some(div_l(&n, &m)) }
            }
            Atom::Mul(v) => {
                let vs: Vec<Lin> = v.iter().map(|j| self.atom(*j).unwrap_or_else(|| Lin::a(*j))).collect();
                if vs.iter().zip(v).all(|(a, b)| *a == Lin::a(*b)) {
                    None
                } else {
                    let mut r = Lin::c(1);
                    for x in vs {
                        r = mul(&r, &x);
                    }
                    Some(r)
                }
            }
            Atom::Bits(o, x, y, w) => {
                let (n, m) = (self.lin(x), self.lin(y));
                if n == *x && m == *y {
                    None
                } else {
                    Some(match o {
                        0 => bitand(&n, &m, *w),
                        1 => bitor(&n, &m, *w),
                        _ => bitxor(&n, &m, *w),
                    })
                }
            }
            Atom::Bit(l, k) => {
                let n = self.lin(l);
                if n == *l { None } else { Some(bit(&n, *k)) }
            }
            Atom::Pow2(l) => {
                let n = self.lin(l);
                if n == *l { None } else { Some(pow2(&n)) }
            }
            Atom::Min(x, y) => {
                let (n, m) = (self.lin(x), self.lin(y));
                if n == *x && m == *y { None } else { Some(min(&n, &m)) }
            }
            Atom::Fun(t, v, l, h) => {
                let mut ch = false;
                let mut nv = vec![];
                let mut it = v.iter().peekable();
                while let Some(x) = it.next() {
                    match x {
                        Arg::L(l) => {
                            let n = self.lin(l);
                            ch |= n != *l;
                            nv.push(Arg::L(n));
                        }
                        Arg::C(c) => {
                            let (c2, d) = self.cont(*c);
                            ch |= c2 != *c || d.is_c() != Some(0);
                            nv.push(Arg::C(c2));
                            // A content argument is always followed by its offset.
                            if let Some(Arg::L(o)) = it.peek() {
                                let n = self.lin(o).add(&d);
                                ch |= n != *o;
                                nv.push(Arg::L(n));
                                it.next();
                            }
                        }
                    }
                }
                if ch { Some(fun(t, nv, *l, *h)) } else { None }
            }
        };
        self.memo.insert(i, r.clone());
        r
    }
    /// The substituted content and the amount to add to offsets into it.
    pub fn cont(&mut self, c: Cid) -> (Cid, Lin) {
        if let Some(x) = self.cm.get(&c) {
            return x.clone();
        }
        if let Some(r) = self.cmemo.get(&c) {
            return r.clone().unwrap_or((c, Lin::c(0)));
        }
        let k = cont(c);
        let r = match &k {
            Cont::Patch { base, off, len, src, soff } => {
                let (b, bd) = self.cont(*base);
                let (s, sd) = self.cont(*src);
                let (o, l, so) = (self.lin(off).add(&bd), self.lin(len), self.lin(soff).add(&sd));
                Some((mkc(Cont::Patch { base: b, off: o, len: l, src: s, soff: so }), bd))
            }
            Cont::Int(l, w, be) => Some((mkc(Cont::Int(self.lin(l), *w, *be)), Lin::c(0))),
            Cont::Fill(l) => Some((mkc(Cont::Fill(self.lin(l))), Lin::c(0))),
            _ => None,
        };
        self.cmemo.insert(c, r.clone());
        r.unwrap_or((c, Lin::c(0)))
    }
}

/// All atoms a linear form mentions, including nested ones.
pub fn atoms_of(l: &Lin, out: &mut std::collections::BTreeSet<Id>) {
    for (i, _) in &l.t {
        atoms_in(*i, out);
    }
}
pub fn atoms_in(i: Id, out: &mut std::collections::BTreeSet<Id>) {
    if !out.insert(i) {
        return;
    }
    match atom(i) {
        Atom::Sym(..) => {}
        Atom::Load(c, o, ..) => {
            catoms(c, out);
            atoms_of(&o, out);
        }
        Atom::Div(l, _) | Atom::Bit(l, _) | Atom::Pow2(l) => atoms_of(&l, out),
        Atom::DivL(a, b) | Atom::Bits(_, a, b, _) | Atom::Min(a, b) => {
            atoms_of(&a, out);
            atoms_of(&b, out);
        }
        Atom::Mul(v) => v.iter().for_each(|j| atoms_in(*j, out)),
        Atom::Fun(_, v, ..) => {
            for x in v {
                match x {
                    Arg::L(l) => atoms_of(&l, out),
                    Arg::C(c) => catoms(c, out),
                }
            }
        }
    }
}
pub fn catoms(c: Cid, out: &mut std::collections::BTreeSet<Id>) {
    match cont(c) {
        Cont::Patch { base, off, len, src, soff } => {
            catoms(base, out);
            catoms(src, out);
            atoms_of(&off, out);
            atoms_of(&len, out);
            atoms_of(&soff, out);
        }
        Cont::Int(l, ..) | Cont::Fill(l) => atoms_of(&l, out),
        _ => {}
    }
}
/// Every base content a linear form depends on.
pub fn conts_of(l: &Lin, out: &mut std::collections::BTreeSet<Cid>) {
    let mut s = std::collections::BTreeSet::new();
    atoms_of(l, &mut s);
    for i in s {
        match atom(i) {
            Atom::Load(c, ..) => {
                out.insert(c);
            }
            Atom::Fun(_, v, ..) => {
                for x in v {
                    if let Arg::C(c) = x {
                        out.insert(c);
                    }
                }
            }
            _ => {}
        }
    }
}

// ---- printing ----------------------------------------------------------------

pub fn show(l: &Lin) -> String {
    if l.t.is_empty() {
        return l.k.to_string();
    }
    let mut s = String::new();
    for (i, c) in &l.t {
        if !s.is_empty() {
            s.push_str(if *c < 0 { " - " } else { " + " });
        } else if *c < 0 {
            s.push('-');
        }
        if c.abs() != 1 {
            s.push_str(&format!("{}*", c.abs()));
        }
        s.push_str(&show_atom(*i));
    }
    if l.k != 0 {
        s.push_str(&format!(" {} {}", if l.k < 0 { "-" } else { "+" }, l.k.abs()));
    }
    s
}
pub fn show_atom(i: Id) -> String {
    match atom(i) {
        Atom::Sym(k, ..) => AR.with(|a| a.borrow().names.get(&k).cloned()).map(|n| format!("{n}#{:x}", k & 0xfff)).unwrap_or_else(|| format!("s{:x}", k & 0xffffff)),
        Atom::Load(c, o, w, be) => format!("{}[{}]{}{}", show_cont(c), show(&o), if be { "be" } else { "le" }, w as u32 * 8),
        Atom::Div(l, d) => format!("({})/{}", show(&l), d),
        Atom::DivL(a, b) => format!("({})/({})", show(&a), show(&b)),
        Atom::Mul(v) => v.iter().map(|x| show_atom(*x)).collect::<Vec<_>>().join("·"),
        Atom::Bits(o, a, b, _) => format!("({} {} {})", show(&a), ["&", "|", "^"][o as usize], show(&b)),
        Atom::Bit(l, k) => format!("bit{}({})", k, show(&l)),
        Atom::Pow2(l) => format!("2^({})", show(&l)),
        Atom::Min(a, b) => format!("min({}, {})", show(&a), show(&b)),
        Atom::Fun(t, v, ..) => {
            let a: Vec<String> = v
                .iter()
                .map(|x| match x {
                    Arg::L(l) => show(l),
                    Arg::C(c) => show_cont(*c),
                })
                .collect();
            format!("{}({})", t, a.join(", "))
        }
    }
}
pub fn show_cont(c: Cid) -> String {
    match cont(c) {
        Cont::Fresh(k, _) => AR.with(|a| a.borrow().names.get(&k).cloned()).map(|n| format!("{n}#{:x}", k & 0xfff)).unwrap_or_else(|| format!("c{:x}", k & 0xffffff)),
        Cont::Dev => "dev".into(),
        Cont::Zero => "zero".into(),
        Cont::Const(v) => format!("const{:?}", &v[..v.len().min(8)]),
        Cont::Patch { base, off, len, src, soff } => format!("{{{} @{}+{}: {}+{}}}", show_cont(base), show(&off), show(&len), show_cont(src), show(&soff)),
        Cont::Int(l, w, _) => format!("int{}({})", w * 8, show(&l)),
        Cont::Fill(l) => format!("fill({})", show(&l)),
    }
}
