//! Abstract values, memory and states.
use crate::solve::*;
use crate::term::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Cell = u64;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum P {
    F(usize),
    V(usize),
    Box,
    In,
    Idx(Lin),
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Place {
    pub cell: Cell,
    pub proj: Vec<P>,
}
impl Place {
    pub fn cell(cell: Cell) -> Place {
        Place { cell, proj: vec![] }
    }
    pub fn with(&self, p: P) -> Place {
        let mut x = self.clone();
        x.proj.push(p);
        x
    }
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Cond {
    T,
    F,
    A(Fact),
    And(Vec<Cond>),
    Or(Vec<Cond>),
}
impl Cond {
    pub fn b(b: bool) -> Cond {
        if b { Cond::T } else { Cond::F }
    }
    pub fn fact(f: Fact) -> Cond {
        match f.norm() {
            Norm::True => Cond::T,
            Norm::False => Cond::F,
            Norm::F(f) => Cond::A(f),
        }
    }
    pub fn not(&self) -> Cond {
        match self {
            Cond::T => Cond::F,
            Cond::F => Cond::T,
            Cond::A(f) => {
                let v: Vec<Cond> = f.not().into_iter().map(Cond::fact).collect();
                if v.len() == 1 { v.into_iter().next().unwrap() } else { Cond::or(v) }
            }
            Cond::And(v) => Cond::or(v.iter().map(|c| c.not()).collect()),
            Cond::Or(v) => Cond::and(v.iter().map(|c| c.not()).collect()),
        }
    }
    pub fn and(v: Vec<Cond>) -> Cond {
        let mut o = vec![];
        for c in v {
            match c {
                Cond::T => {}
                Cond::F => return Cond::F,
                Cond::And(w) => o.extend(w),
                c => o.push(c),
            }
        }
        o.dedup();
        match o.len() {
            0 => Cond::T,
            1 => o.pop().unwrap(),
            _ => Cond::And(o),
        }
    }
    pub fn or(v: Vec<Cond>) -> Cond {
        let mut o = vec![];
        for c in v {
            match c {
                Cond::F => {}
                Cond::T => return Cond::T,
                Cond::Or(w) => o.extend(w),
                c => o.push(c),
            }
        }
        o.dedup();
        match o.len() {
            0 => Cond::F,
            1 => o.pop().unwrap(),
            _ => Cond::Or(o),
        }
    }
    pub fn lins(&self, out: &mut Vec<Lin>) {
        match self {
            Cond::A(f) => out.push(f.lin().clone()),
            Cond::And(v) | Cond::Or(v) => v.iter().for_each(|c| c.lins(out)),
            _ => {}
        }
    }
    pub fn show(&self) -> String {
        match self {
            Cond::T => "true".into(),
            Cond::F => "false".into(),
            Cond::A(f) => f.show(),
            Cond::And(v) => format!("({})", v.iter().map(|c| c.show()).collect::<Vec<_>>().join(" && ")),
            Cond::Or(v) => format!("({})", v.iter().map(|c| c.show()).collect::<Vec<_>>().join(" || ")),
        }
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Pay {
    pub vals: Vec<V>,
    pub facts: Vec<Fact>,
}
impl Pay {
    /// The variant is impossible.
    pub fn dead(&self) -> bool {
        self.facts.iter().any(|f| matches!(f, Fact::Ge(l) if l.is_c().is_some_and(|k| k < 0)))
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct En {
    pub ty: usize,
    pub tag: Lin,
    pub pay: BTreeMap<usize, Pay>,
    /// Key for payloads not listed (symbolic values).
    pub key: u64,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Alt {
    pub v: V,
    pub facts: Vec<Fact>,
    /// Symbols standing for element-specific values, renamed on instantiation.
    pub bound: Vec<Id>,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct SeqV {
    pub len: Lin,
    pub known: Vec<(Lin, V)>,
    pub rest: Vec<Alt>,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct MapV {
    pub rest: Vec<Alt>,
    pub key: u64,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    Uninit,
    Int(Lin),
    Bool(Cond),
    Agg(Rc<Vec<V>>),
    Enum(Rc<En>),
    Ref(Rc<Place>),
    View { c: Cid, off: Lin, len: Lin },
    MSlice(Rc<Place>, Lin, Lin),
    Buf { c: Cid, off: Lin, len: Lin },
    Seq(Rc<SeqV>),
    Map(Rc<MapV>),
    Shared(Cell),
    Boxed(Rc<V>),
    Cell { v: Rc<V>, borrowed: Cond },
    Guard(Rc<Place>),
    Fn(usize),
    Tok(&'static str, u64),
    Top(usize, u64, bool),
}
impl V {
    pub fn unit() -> V {
        V::Agg(Rc::new(vec![]))
    }
    pub fn agg(v: Vec<V>) -> V {
        V::Agg(Rc::new(v))
    }
    pub fn int(k: i128) -> V {
        V::Int(Lin::c(k))
    }
    pub fn show(&self) -> String {
        match self {
            V::Uninit => "_".into(),
            V::Int(l) => show(l),
            V::Bool(c) => c.show(),
            V::Agg(v) => format!("({})", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")),
            V::Enum(e) => format!(
                "enum{}{{{}}}",
                show(&e.tag),
                e.pay
                    .iter()
                    .map(|(k, p)| format!(
                        "{}:({}){}",
                        k,
                        p.vals.iter().map(|x| x.show()).collect::<Vec<_>>().join(", "),
                        if p.facts.is_empty() { String::new() } else { format!(" if {}", p.facts.iter().map(|f| f.show()).collect::<Vec<_>>().join(", ")) }
                    ))
                    .collect::<Vec<_>>()
                    .join("; ")
            ),
            V::Ref(p) => format!("&{}", show_place(p)),
            V::View { c, off, len } => format!("{}[{}; {}]", show_cont(*c), show(off), show(len)),
            V::MSlice(p, o, l) => format!("&mut {}[{}; {}]", show_place(p), show(o), show(l)),
            V::Buf { c, off, len } => format!("buf {}[{}; {}]", show_cont(*c), show(off), show(len)),
            V::Seq(s) => format!(
                "seq(len {}; known {}; rest {})",
                show(&s.len),
                s.known.iter().map(|(i, v)| format!("[{}]={}", show(i), v.show())).collect::<Vec<_>>().join(", "),
                s.rest.iter().map(|a| format!("{} if {}", a.v.show(), a.facts.iter().map(|f| f.show()).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(" | ")
            ),
            V::Map(m) => format!("map({})", m.rest.iter().map(|a| a.v.show()).collect::<Vec<_>>().join(" | ")),
            V::Shared(c) => format!("rc{:x}", c & 0xffff),
            V::Boxed(v) => format!("box {}", v.show()),
            V::Cell { v, borrowed } => format!("cell({}{})", v.show(), if *borrowed == Cond::F { "" } else { " borrowed" }),
            V::Guard(p) => format!("guard {}", show_place(p)),
            V::Fn(f) => format!("fn{f}"),
            V::Tok(t, _) => format!("<{t}>"),
            V::Top(t, k, i) => format!("top{}:{:x}{}", t, k & 0xffff, if *i { "?" } else { "" }),
        }
    }
}
pub fn show_place(p: &Place) -> String {
    let mut s = format!("c{:x}", p.cell & 0xffff);
    for x in &p.proj {
        match x {
            P::F(i) => s.push_str(&format!(".{i}")),
            P::V(i) => s.push_str(&format!("@{i}")),
            P::Box => s.push_str(".*"),
            P::In => s.push_str(".in"),
            P::Idx(l) => s.push_str(&format!("[{}]", show(l))),
        }
    }
    s
}

#[derive(Clone)]
pub struct State {
    pub mem: Rc<BTreeMap<Cell, V>>,
    pub facts: Facts,
    /// Set once the state stopped being a faithful description (unmodelled
    /// code, caps); obligations under it are undecided rather than violated.
    pub imp: bool,
}
impl State {
    pub fn new() -> State {
        State { mem: Rc::new(BTreeMap::new()), facts: Facts::default(), imp: false }
    }
    pub fn set(&mut self, c: Cell, v: V) {
        Rc::make_mut(&mut self.mem).insert(c, v);
    }
    pub fn del(&mut self, c: Cell) {
        if self.mem.contains_key(&c) {
            Rc::make_mut(&mut self.mem).remove(&c);
        }
    }
    pub fn get(&self, c: Cell) -> V {
        self.mem.get(&c).cloned().unwrap_or(V::Uninit)
    }
    pub fn holds(&self, c: &Cond) -> bool {
        self.holds_e(c, 0)
    }
    pub fn holds_e(&self, c: &Cond, e: u32) -> bool {
        match c {
            Cond::T => true,
            Cond::F => e > 0 && refute(&self.facts, &[], e),
            Cond::A(f) => prove_e(&self.facts, f, e),
            Cond::And(v) => v.iter().all(|x| self.holds_e(x, e)),
            Cond::Or(v) => {
                if v.iter().any(|x| self.holds_e(x, e)) {
                    return true;
                }
                // All disjuncts but one refuted under the negation of the rest.
                let mut s = self.clone();
                for x in v {
                    if !s.assume_quiet(&x.not()) {
                        return true;
                    }
                }
                e > 0 && refute(&s.facts, &[], e)
            }
        }
    }
    fn assume_quiet(&mut self, c: &Cond) -> bool {
        self.assume(c)
    }
    /// Adds a condition; false if the state becomes contradictory.
    pub fn assume(&mut self, c: &Cond) -> bool {
        match c {
            Cond::T => true,
            Cond::F => false,
            Cond::A(f) => self.facts.assume(f),
            Cond::And(v) => v.iter().all(|x| self.assume(x)),
            Cond::Or(v) => {
                let mut live = vec![];
                for x in v {
                    if self.holds(x) {
                        return true;
                    }
                    if !self.holds(&x.not()) {
                        live.push(x);
                    }
                }
                match live.len() {
                    0 => false,
                    1 => self.assume(&live[0].clone()),
                    _ => true,
                }
            }
        }
    }
}

/// Visits every integer term and content of a value.
pub fn visit(v: &V, f: &mut dyn FnMut(Result<&Lin, Cid>)) {
    match v {
        V::Int(l) => f(Ok(l)),
        V::Bool(c) => {
            let mut o = vec![];
            c.lins(&mut o);
            o.iter().for_each(|l| f(Ok(l)));
        }
        V::Agg(x) => x.iter().for_each(|y| visit(y, f)),
        V::Enum(e) => {
            f(Ok(&e.tag));
            for p in e.pay.values() {
                p.vals.iter().for_each(|y| visit(y, f));
                p.facts.iter().for_each(|y| f(Ok(y.lin())));
            }
        }
        V::Ref(p) | V::Guard(p) => visit_place(p, f),
        V::View { c, off, len } | V::Buf { c, off, len } => {
            f(Err(*c));
            f(Ok(off));
            f(Ok(len));
        }
        V::MSlice(p, o, l) => {
            visit_place(p, f);
            f(Ok(o));
            f(Ok(l));
        }
        V::Seq(s) => {
            f(Ok(&s.len));
            for (i, x) in &s.known {
                f(Ok(i));
                visit(x, f);
            }
            for a in &s.rest {
                visit(&a.v, f);
                a.facts.iter().for_each(|y| f(Ok(y.lin())));
            }
        }
        V::Map(m) => {
            for a in &m.rest {
                visit(&a.v, f);
                a.facts.iter().for_each(|y| f(Ok(y.lin())));
            }
        }
        V::Boxed(x) => visit(x, f),
        V::Cell { v, borrowed } => {
            visit(v, f);
            let mut o = vec![];
            borrowed.lins(&mut o);
            o.iter().for_each(|l| f(Ok(l)));
        }
        _ => {}
    }
}
fn visit_place(p: &Place, f: &mut dyn FnMut(Result<&Lin, Cid>)) {
    for x in &p.proj {
        if let P::Idx(l) = x {
            f(Ok(l));
        }
    }
}
pub fn map_fact(x: &Fact, s: &mut Subst) -> Fact {
    match x {
        Fact::Ge(l) => Fact::Ge(s.lin(l)),
        Fact::Eq(l) => Fact::Eq(s.lin(l)),
        Fact::Ne(l) => Fact::Ne(s.lin(l)),
    }
}
pub fn map_cond(c: &Cond, s: &mut Subst) -> Cond {
    match c {
        Cond::T => Cond::T,
        Cond::F => Cond::F,
        Cond::A(f) => Cond::fact(map_fact(f, s)),
        Cond::And(v) => Cond::and(v.iter().map(|x| map_cond(x, s)).collect()),
        Cond::Or(v) => Cond::or(v.iter().map(|x| map_cond(x, s)).collect()),
    }
}
fn map_place(p: &Rc<Place>, s: &mut Subst) -> Rc<Place> {
    if p.proj.iter().any(|x| matches!(x, P::Idx(_))) {
        Rc::new(Place { cell: p.cell, proj: p.proj.iter().map(|x| if let P::Idx(l) = x { P::Idx(s.lin(l)) } else { x.clone() }).collect() })
    } else {
        p.clone()
    }
}
fn map_alt(a: &Alt, s: &mut Subst) -> Alt {
    Alt { v: map_v(&a.v, s), facts: a.facts.iter().map(|f| map_fact(f, s)).collect(), bound: a.bound.clone() }
}
/// Applies a substitution to a value (bound element symbols must not be in it
/// unless they are being instantiated).
pub fn map_v(v: &V, s: &mut Subst) -> V {
    match v {
        V::Int(l) => V::Int(s.lin(l)),
        V::Bool(c) => V::Bool(map_cond(c, s)),
        V::Agg(x) => V::Agg(Rc::new(x.iter().map(|y| map_v(y, s)).collect())),
        V::Enum(e) => V::Enum(Rc::new(En {
            ty: e.ty,
            key: e.key,
            tag: s.lin(&e.tag),
            pay: e
                .pay
                .iter()
                .map(|(k, p)| (*k, Pay { vals: p.vals.iter().map(|y| map_v(y, s)).collect(), facts: p.facts.iter().map(|f| map_fact(f, s)).collect() }))
                .collect(),
        })),
        V::Ref(p) => V::Ref(map_place(p, s)),
        V::Guard(p) => V::Guard(map_place(p, s)),
        V::View { c, off, len } => {
            let (c2, d) = s.cont(*c);
            V::View { c: c2, off: s.lin(off).add(&d), len: s.lin(len) }
        }
        V::Buf { c, off, len } => {
            let (c2, d) = s.cont(*c);
            V::Buf { c: c2, off: s.lin(off).add(&d), len: s.lin(len) }
        }
        V::MSlice(p, o, l) => V::MSlice(map_place(p, s), s.lin(o), s.lin(l)),
        V::Seq(q) => V::Seq(Rc::new(SeqV {
            len: s.lin(&q.len),
            known: q.known.iter().map(|(i, x)| (s.lin(i), map_v(x, s))).collect(),
            rest: q.rest.iter().map(|a| map_alt(a, s)).collect(),
        })),
        V::Map(m) => V::Map(Rc::new(MapV { key: m.key, rest: m.rest.iter().map(|a| map_alt(a, s)).collect() })),
        V::Boxed(x) => V::Boxed(Rc::new(map_v(x, s))),
        V::Cell { v, borrowed } => V::Cell { v: Rc::new(map_v(v, s)), borrowed: map_cond(borrowed, s) },
        _ => v.clone(),
    }
}
