//! The abstract interpreter: executes typed MIR over abstract states, joining
//! at control-flow joins and generalising at loop heads.
use crate::merge::*;
use crate::prog::*;
use crate::solve::*;
use crate::state::*;
use crate::term::*;
use crate::json::J;
use std::cell::{Cell as C, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type Out = Vec<(State, V)>;

pub const G_IO: Cell = 0x10;
/// No unit was called so far.
pub const G_PRE: Cell = 0x11;

#[derive(Clone, Debug)]
pub struct Ob {
    pub rule: &'static str,
    pub key: String,
    pub text: String,
    pub ok: bool,
    pub imp: bool,
}
pub struct Eng<'a> {
    pub p: &'a Prog,
    pub log: RefCell<Vec<Ob>>,
    pub stack: RefCell<Vec<(usize, u32, u64)>>,
    pub cache: RefCell<HashMap<u64, Tmpl>>,
    pub model_of: RefCell<HashMap<usize, Option<crate::models::Model>>>,
    pub unmodelled: RefCell<BTreeMap<String, u64>>,
    pub quiet: C<u32>,
    pub steps: C<u64>,
    pub root: RefCell<String>,
    pub trace: C<u32>,
    pub prof: RefCell<HashMap<usize, (u64, f64)>>,
    pub cfg: crate::rules::Cfg,
    pub tyids: HashMap<String, usize>,
    pub visited: RefCell<BTreeSet<usize>>,
    /// Cells of constants, which keep their names everywhere.
    pub consts: RefCell<std::collections::HashSet<Cell>>,
    /// Cells of the shared filesystem object.
    pub heap: RefCell<std::collections::HashSet<Cell>>,
    pub memo: RefCell<HashMap<u64, crate::memo::Entry>>,
    pub parts: RefCell<HashMap<(usize, u32), BTreeSet<u64>>>,
    /// Symbols of the loaded filesystem.
    pub globals: RefCell<Rc<std::collections::HashSet<Id>>>,
    /// The shared filesystem object: type and cell.
    pub fs: RefCell<Option<(usize, Cell)>>,
    pub memo_n: C<(u64, u64)>,
    /// Function summaries in use.
    pub sums: C<bool>,
    pub peel: C<bool>,
    pub cuts: RefCell<BTreeSet<usize>>,
    pub uncut: RefCell<BTreeSet<usize>>,
    pub heavy: C<u64>,
    pub prefix: C<bool>,
    signed: RefCell<HashMap<usize, bool>>,
    /// The filesystem is loaded.
    pub loaded: C<bool>,
    pub rules: Vec<String>,
    pub weights: RefCell<HashMap<usize, u64>>,
}
#[derive(Clone, Debug)]
pub enum RP {
    M(Place),
    Fat(V),
    ByteM(Place, Lin),
    ByteV(V, Lin),
    Val(V),
}
pub struct Fr<'b> {
    pub f: usize,
    pub body: &'b Body,
    pub ctx: u64,
}
pub fn lc(ctx: u64, l: usize) -> Cell {
    hash(&(ctx, l, 0x10ca1u32))
}
struct Region {
    back: Vec<State>,
    exits: Vec<(usize, State)>,
    rets: Out,
}

impl<'a> Eng<'a> {
    pub fn new(p: &'a Prog, cfg: crate::rules::Cfg) -> Eng<'a> {
        let tyids = p.tys.iter().enumerate().map(|(i, t)| (t.name.clone(), i)).collect();
        Eng {
            p,
            log: RefCell::new(vec![]),
            stack: RefCell::new(vec![]),
            cache: RefCell::new(HashMap::new()),
            model_of: RefCell::new(HashMap::new()),
            unmodelled: RefCell::new(BTreeMap::new()),
            quiet: C::new(0),
            steps: C::new(0),
            root: RefCell::new(String::new()),
            trace: C::new(0),
            prof: RefCell::new(HashMap::new()),
            cfg,
            tyids,
            visited: RefCell::new(BTreeSet::new()),
            consts: RefCell::new(Default::default()),
            heap: RefCell::new(Default::default()),
            memo: RefCell::new(HashMap::new()),
            parts: Default::default(),
            globals: Default::default(),
            fs: Default::default(),
            memo_n: C::new((0, 0)),
            sums: C::new(false),
            cuts: Default::default(),
            uncut: Default::default(),
            peel: C::new(std::env::var("VF_NOPEEL").is_err()),
            prefix: C::new(false),
            signed: RefCell::new(HashMap::new()),
            loaded: C::new(false),
            rules: std::env::var("VF_RULES").unwrap_or_default().split(',').map(|s| s.to_string()).collect(),
            heavy: C::new(std::env::var("VF_HEAVY").ok().and_then(|x| x.parse().ok()).unwrap_or(400)),
            weights: RefCell::new(HashMap::new()),
        }
    }
    pub fn on(&self, rule: &str) -> bool {
        self.rules.iter().any(|r| r == rule || r == "all")
    }
    pub fn ty(&self, i: usize) -> &TyK {
        &self.p.tys[i].k
    }
    pub fn where_(&self) -> String {
        let s = self.stack.borrow();
        // The innermost library function and the way there.
        let mut out = vec![];
        for (f, loc, _) in s.iter() {
            let fun = &self.p.fns[*f];
            if fun.krate == "ext4_view" || fun.krate == "harness" {
                out.push(format!("{} ({})", fun.name, self.p.locs[*loc as usize]));
            }
        }
        out.join(" > ")
    }
    /// The innermost library function.
    pub fn here(&self) -> String {
        let s = self.stack.borrow();
        for (f, _, _) in s.iter().rev() {
            let fun = &self.p.fns[*f];
            if fun.krate == "ext4_view" {
                return fun.path.clone();
            }
        }
        self.root.borrow().clone()
    }
    pub fn ob(&self, rule: &'static str, key: String, text: String, ok: bool, imp: bool) {
        let text = if ok && !self.cfg.verbose { String::new() } else { format!("{} [at {}] root {}", text, self.where_(), self.root.borrow()) };
        self.log.borrow_mut().push(Ob { rule, key, text, ok, imp });
    }
    pub fn note_unmodelled(&self, what: &str) {
        *self.unmodelled.borrow_mut().entry(what.to_string()).or_default() += 1;
    }

    // ---- symbolic values ----------------------------------------------------

    pub fn sym_v(&self, st: &mut State, ty: usize, key: u64) -> V {
        self.sym_d(st, ty, key, 0, false)
    }
    pub fn sym_d(&self, st: &mut State, ty: usize, key: u64, d: u32, imp: bool) -> V {
        let t = &self.p.tys[ty];
        if d > 12 {
            return V::Top(ty, key, imp);
        }
        let int = |lo: i128, hi: i128| V::Int(if imp { sym_imp(key, Some(lo), Some(hi)) } else { sym(key, Some(lo), Some(hi)) });
        match &t.k {
            TyK::Bool => match int(0, 1) {
                V::Int(l) => V::Bool(Cond::fact(Fact::Ge(l.addk(-1)))),
                v => v,
            },
            TyK::Int { bits, signed } => {
                if *signed {
                    let h = 1i128 << (bits.min(&126) - 1);
                    int(-h, h - 1)
                } else {
                    int(0, umax(*bits))
                }
            }
            TyK::Char => int(0, 0x10ffff),
            TyK::Never => V::Uninit,
            TyK::Array(e, n) => {
                if self.is_u8(*e) {
                    V::Buf { c: mkc(Cont::Fresh(key, imp)), off: Lin::c(0), len: Lin::c(*n as i128) }
                } else {
                    let mut known = vec![];
                    if *n <= 32 {
                        for i in 0..*n {
                            known.push((Lin::c(i as i128), self.sym_d(st, *e, hash(&(key, i)), d + 1, imp)));
                        }
                        V::Seq(Rc::new(SeqV { len: Lin::c(*n as i128), known, rest: vec![] }))
                    } else {
                        V::Top(ty, key, true)
                    }
                }
            }
            TyK::Ref(t, m) => match self.ty(*t) {
                TyK::Slice(e) if self.is_u8(*e) => {
                    let len = sym(hash(&(key, "len")), Some(0), Some(umax(63)));
                    let c = mkc(Cont::Fresh(key, imp));
                    if *m {
                        let cell = hash(&(key, "cell"));
                        st.set(cell, V::Buf { c, off: Lin::c(0), len: len.clone() });
                        V::MSlice(Rc::new(Place::cell(cell)), Lin::c(0), len)
                    } else {
                        V::View { c, off: Lin::c(0), len }
                    }
                }
                TyK::Str => V::View { c: mkc(Cont::Fresh(key, imp)), off: Lin::c(0), len: sym(hash(&(key, "len")), Some(0), Some(umax(63))) },
                TyK::Dyn(_) => V::Tok("dyn", key),
                _ => {
                    let cell = hash(&(key, "cell"));
                    let v = self.sym_d(st, *t, hash(&(key, "to")), d + 1, imp);
                    st.set(cell, v);
                    V::Ref(Rc::new(Place::cell(cell)))
                }
            },
            TyK::Tuple(ts) => V::agg(ts.iter().enumerate().map(|(i, t)| self.sym_d(st, *t, hash(&(key, i)), d + 1, imp)).collect()),
            TyK::Adt { kind, path, vars, targs, .. } => {
                match path.as_str() {
                    "std::vec::Vec" | "std::collections::VecDeque" => {
                        let e = targs[0];
                        let len = sym(hash(&(key, "len")), Some(0), Some(umax(63)));
                        return if self.is_u8(e) {
                            V::Buf { c: mkc(Cont::Fresh(key, imp)), off: Lin::c(0), len }
                        } else {
                            V::Seq(Rc::new(SeqV { len, known: vec![], rest: vec![self.any_alt(st, |z, st| z.sym_d(st, e, hash(&("bound", e)), d + 1, imp))] }))
                        };
                    }
                    "std::collections::BTreeMap" => {
                        let (k, v) = (targs[0], targs[1]);
                        let a = self.any_alt(st, |z, st| V::agg(vec![z.sym_d(st, k, hash(&("key", k)), d + 1, imp), z.sym_d(st, v, hash(&("value", v)), d + 1, imp)]));
                        return V::Map(Rc::new(MapV { key, rest: vec![a] }));
                    }
                    "std::string::String" | "std::path::PathBuf" | "std::ffi::OsString" => {
                        return V::Buf { c: mkc(Cont::Fresh(key, imp)), off: Lin::c(0), len: sym(hash(&(key, "len")), Some(0), Some(umax(63))) };
                    }
                    "std::boxed::Box" => {
                        return match self.ty(targs[0]) {
                            TyK::Dyn(_) => V::Tok("dyn", key),
                            TyK::Slice(e) if self.is_u8(*e) => {
                                V::Buf { c: mkc(Cont::Fresh(key, imp)), off: Lin::c(0), len: sym(hash(&(key, "len")), Some(0), Some(umax(63))) }
                            }
                            _ => V::Boxed(Rc::new(self.sym_d(st, targs[0], hash(&(key, "box")), d + 1, imp))),
                        };
                    }
                    "std::rc::Rc" | "std::sync::Arc" => {
                        return match *self.fs.borrow() {
                            Some((t, c)) if t == targs[0] => V::Shared(c),
                            _ if self.on("C13") && self.p.tys[targs[0]].name == "ext4_view::PathBuf" => {
                                let c = hash(&(key, "shared"));
                                let v = self.sym_d(st, targs[0], hash(&(key, "rc")), d + 1, imp);
                                st.set(c, v);
                                V::Shared(c)
                            }
                            _ => V::Top(ty, key, imp),
                        };
                    }
                    "std::num::NonZero" => {
                        return match self.ty(targs[0]) {
                            TyK::Int { bits, .. } => V::Int(sym(key, Some(1), Some(umax(*bits)))),
                            _ => V::Top(ty, key, imp),
                        };
                    }
                    _ => {}
                }
                match kind {
                    AdtK::Struct => {
                        let own = path.starts_with("ext4_view") || path.starts_with("std::ops::") || path.starts_with("std::num::Wrapping") || path.starts_with("harness");
                        if !own {
                            return V::Top(ty, key, imp);
                        }
                        V::agg(vars[0].fields.iter().enumerate().map(|(i, f)| self.sym_d(st, f.1, hash(&(key, i)), d + 1, imp)).collect())
                    }
                    AdtK::Enum => {
                        if vars.is_empty() {
                            return V::Uninit;
                        }
                        let tag = if vars.len() == 1 {
                            Lin::c(0)
                        } else if imp {
                            sym_imp(hash(&(key, "tag")), Some(0), Some(vars.len() as i128 - 1))
                        } else {
                            sym(hash(&(key, "tag")), Some(0), Some(vars.len() as i128 - 1))
                        };
                        let mut pay = BTreeMap::new();
                        for (k, v) in vars.iter().enumerate() {
                            let vals = v.fields.iter().enumerate().map(|(i, f)| self.sym_d(st, f.1, hash(&(key, k, i)), d + 1, imp)).collect();
                            pay.insert(k, Pay { vals, facts: vec![] });
                        }
                        V::Enum(Rc::new(En { ty, tag, pay, key }))
                    }
                    AdtK::Union => V::Top(ty, key, imp),
                }
            }
            _ => V::Top(ty, key, imp),
        }
    }
    /// Any value, bound in an alternative.
    fn any_alt(&self, st: &mut State, f: impl Fn(&Eng, &mut State) -> V) -> Alt {
        let v = f(self, st);
        let bound = crate::memo::syms_of(&v);
        Alt { v, facts: vec![], bound }
    }
    pub fn is_u8(&self, ty: usize) -> bool {
        matches!(self.ty(ty), TyK::Int { bits: 8, signed: false })
    }
    pub fn variant(&self, ty: usize, name: &str) -> usize {
        if let TyK::Adt { vars, .. } = self.ty(ty) {
            return vars.iter().position(|v| v.name == name).unwrap_or_else(|| panic!("no variant {} in {}", name, self.p.tys[ty].name));
        }
        panic!("not an enum: {}", self.p.tys[ty].name)
    }
    pub fn en(&self, ty: usize, var: usize, vals: Vec<V>) -> V {
        V::Enum(Rc::new(En { ty, tag: Lin::c(var as i128), pay: [(var, Pay { vals, facts: vec![] })].into_iter().collect(), key: 0 }))
    }
    pub fn some(&self, ty: usize, v: V) -> V {
        self.en(ty, self.variant(ty, "Some"), vec![v])
    }
    pub fn none(&self, ty: usize) -> V {
        self.en(ty, self.variant(ty, "None"), vec![])
    }
    pub fn ok(&self, ty: usize, v: V) -> V {
        self.en(ty, self.variant(ty, "Ok"), vec![v])
    }
    pub fn err(&self, ty: usize, v: V) -> V {
        self.en(ty, self.variant(ty, "Err"), vec![v])
    }
    /// Payload type i of a variant.
    pub fn pty(&self, ty: usize, var: &str, i: usize) -> usize {
        if let TyK::Adt { vars, .. } = self.ty(ty) {
            for v in vars {
                if v.name == var {
                    return v.fields[i].1;
                }
            }
        }
        0
    }

    // ---- constants ------------------------------------------------------------

    pub fn konst(&self, st: &mut State, ty: usize, j: &J) -> V {
        let k = j.key("k").s();
        match (&self.p.tys[ty].k, k) {
            (_, "int") => V::Int(Lin::c(j.key("v").s().parse().unwrap_or(0))),
            (_, "bool") => V::Bool(Cond::b(j.key("v").b())),
            (_, "zst") => self.zst(ty),
            (_, "str") => {
                let b = j.key("s").s().as_bytes().to_vec();
                let n = b.len();
                V::View { c: mkc(Cont::Const(b)), off: Lin::c(0), len: Lin::c(n as i128) }
            }
            (t, "bytes") => {
                let b: Vec<u8> = j.key("b").arr().iter().map(|x| x.n() as u8).collect();
                let n = b.len();
                let c = mkc(Cont::Const(b));
                match t {
                    TyK::Array(..) => V::Buf { c, off: Lin::c(0), len: Lin::c(n as i128) },
                    TyK::Ref(to, _) if matches!(self.ty(*to), TyK::Array(..)) => {
                        let cell = hash(&("const", c));
                        self.consts.borrow_mut().insert(cell);
                        st.set(cell, V::Buf { c, off: Lin::c(0), len: Lin::c(n as i128) });
                        V::Ref(Rc::new(Place::cell(cell)))
                    }
                    _ => V::View { c, off: Lin::c(0), len: Lin::c(n as i128) },
                }
            }
            (TyK::Array(e, _) | TyK::Slice(e), "arr") => {
                let items = j.key("f").arr();
                if self.is_u8(*e) {
                    let b: Vec<u8> = items.iter().map(|x| x.key("v").s().parse::<i128>().unwrap_or(0) as u8).collect();
                    let n = b.len();
                    return V::Buf { c: mkc(Cont::Const(b)), off: Lin::c(0), len: Lin::c(n as i128) };
                }
                if items.len() > 64 {
                    return V::Top(ty, hash(&("bigconst", ty, items.len())), true);
                }
                let known = items.iter().enumerate().map(|(i, x)| (Lin::c(i as i128), self.konst(st, *e, x))).collect();
                V::Seq(Rc::new(SeqV { len: Lin::c(items.len() as i128), known, rest: vec![] }))
            }
            (TyK::Tuple(ts), "agg") => {
                let f = j.key("f").arr();
                V::agg(ts.iter().zip(f).map(|(t, x)| self.konst(st, *t, x)).collect())
            }
            (TyK::Closure(_, ts), "agg") => {
                let f = j.key("f").arr();
                V::agg(ts.iter().zip(f).map(|(t, x)| self.konst(st, *t, x)).collect())
            }
            (TyK::Adt { kind, vars, path, .. }, "agg") => {
                let f = j.key("f").arr();
                let v = j.key("v").n().max(0) as usize;
                let vals: Vec<V> = vars[v].fields.iter().zip(f).map(|(t, x)| self.konst(st, t.1, x)).collect();
                if path == "std::num::NonZero" {
                    let mut x = vals.into_iter().next().unwrap_or(V::Uninit);
                    while let V::Agg(a) = &x {
                        if a.is_empty() {
                            break;
                        }
                        x = a[0].clone();
                    }
                    return x;
                }
                match kind {
                    AdtK::Enum => self.en(ty, v, vals),
                    _ => V::agg(vals),
                }
            }
            (TyK::Ref(to, _), "ref") => {
                let v = self.konst(st, *to, j.key("to"));
                let cell = hash(&("cref", ty, v.show()));
                self.consts.borrow_mut().insert(cell);
                match self.ty(*to) {
                    TyK::Slice(_) if matches!(v, V::Seq(_)) => {
                        let n = self.vlen(st, &v);
                        st.set(cell, v);
                        V::MSlice(Rc::new(Place::cell(cell)), Lin::c(0), n)
                    }
                    TyK::Slice(_) | TyK::Str => v,
                    _ => {
                        st.set(cell, v);
                        V::Ref(Rc::new(Place::cell(cell)))
                    }
                }
            }
            _ => {
                if std::env::var("VF_UNK").is_ok() {
                    eprintln!("unk const {} {}", self.p.tys[ty].name, k);
                }
                let key = hash(&("unk", ty));
                self.sym_d(st, ty, key, 0, true)
            }
        }
    }
    pub fn zst(&self, ty: usize) -> V {
        match self.ty(ty) {
            TyK::FnDef(f) => V::Fn((*f).max(0) as usize),
            TyK::Adt { kind: AdtK::Enum, vars, .. } if vars.len() == 1 => self.en(ty, 0, vec![]),
            TyK::Adt { kind: AdtK::Struct, vars, .. } => V::agg(vars[0].fields.iter().map(|f| self.zst(f.1)).collect()),
            TyK::Tuple(ts) => V::agg(ts.iter().map(|t| self.zst(*t)).collect()),
            TyK::Closure(_, ts) => V::agg(ts.iter().map(|t| self.zst(*t)).collect()),
            TyK::Array(e, n) => {
                if self.is_u8(*e) {
                    V::Buf { c: mkc(Cont::Zero), off: Lin::c(0), len: Lin::c(*n as i128) }
                } else {
                    V::Seq(Rc::new(SeqV { len: Lin::c(*n as i128), known: vec![], rest: vec![] }))
                }
            }
            _ => V::unit(),
        }
    }

    // ---- memory -------------------------------------------------------------

    pub fn read(&self, st: &mut State, p: &Place) -> V {
        let root = st.get(p.cell);
        self.walk(st, root, &p.proj)
    }
    fn walk(&self, st: &mut State, mut v: V, proj: &[P]) -> V {
        for x in proj {
            v = match (&v, x) {
                (V::Agg(a), P::F(i)) => a.get(*i).cloned().unwrap_or(V::Uninit),
                (V::Enum(e), P::V(k)) => {
                    let _ = (e, k);
                    // Followed by a field.
                    V::Agg(Rc::new(match e.pay.get(k) {
                        Some(p) => {
                            if e.tag.is_c().is_none() {
                                for f in &p.facts {
                                    st.facts.add(f.clone());
                                }
                            }
                            p.vals.clone()
                        }
                        None => self.lazy_pay(st, e, *k),
                    }))
                }
                (V::Boxed(b), P::Box) => (**b).clone(),
                (V::Cell { v, .. }, P::In) => (**v).clone(),
                (V::Seq(s), P::Idx(i)) => match s.known.iter().find(|(j, _)| j == i) {
                    Some((_, v)) => v.clone(),
                    None => {
                        let mut r = None;
                        for (j, v) in &s.known {
                            if prove(&st.facts, &Fact::Eq(i.sub(j))) {
                                r = Some(v.clone());
                                break;
                            }
                        }
                        if r.is_none() && std::env::var("VF_SEQ").is_ok() {
                            eprintln!("GET {} in {} at {}", show(i), v.show(), self.here());
                        }
                        r.unwrap_or(V::Top(0, hash(&("seq", i, s.len.clone())), true))
                    }
                },
                (V::Uninit, _) => V::Uninit,
                (V::Top(t, k, imp), x) => self.expand_top(st, *t, *k, *imp, x),
                // Newtypes represented by their content.
                (V::Int(_) | V::Buf { .. } | V::Seq(_) | V::Boxed(_) | V::Tok(..) | V::Shared(_) | V::Bool(_), P::F(_)) => v.clone(),
                (_, P::Box) => v.clone(),
                _ => V::Top(0, hash(&("bad", v.show().len(), x)), true),
            };
        }
        v
    }
    fn expand_top(&self, st: &mut State, t: usize, k: u64, imp: bool, x: &P) -> V {
        if let P::F(i) = x {
            match self.ty(t) {
                TyK::Adt { kind: AdtK::Struct, vars, .. } => {
                    if let Some(f) = vars[0].fields.get(*i) {
                        return self.sym_d(st, f.1, hash(&(k, i)), 6, imp);
                    }
                }
                TyK::Tuple(ts) => {
                    if let Some(f) = ts.get(*i) {
                        return self.sym_d(st, *f, hash(&(k, i)), 6, imp);
                    }
                }
                _ => {}
            }
        }
        V::Top(0, hash(&(k, x)), true)
    }
    fn lazy_pay(&self, st: &mut State, e: &En, k: usize) -> Vec<V> {
        if let TyK::Adt { vars, .. } = self.ty(e.ty) {
            if let Some(v) = vars.get(k) {
                return v.fields.iter().enumerate().map(|(i, f)| self.sym_d(st, f.1, hash(&(e.key, k, i)), 4, e.key == 0)).collect();
            }
        }
        vec![]
    }
    pub fn write(&self, st: &mut State, p: &Place, v: V) {
        if p.proj.is_empty() {
            st.set(p.cell, v);
            return;
        }
        let root = st.get(p.cell);
        let r = self.put(st, root, &p.proj, v);
        st.set(p.cell, r);
    }
    fn put(&self, st: &mut State, root: V, proj: &[P], v: V) -> V {
        let Some(x) = proj.first() else { return v };
        match (root, x) {
            (V::Agg(mut a), P::F(i)) => {
                if *i < a.len() {
                    let a2 = Rc::make_mut(&mut a);
                    let old = std::mem::replace(&mut a2[*i], V::Uninit);
                    a2[*i] = self.put(st, old, &proj[1..], v);
                    V::Agg(a)
                } else {
                    let mut w = (*a).clone();
                    w.resize(*i + 1, V::Uninit);
                    w[*i] = self.put(st, V::Uninit, &proj[1..], v);
                    V::agg(w)
                }
            }
            (V::Enum(e), P::V(k)) => {
                let Some(P::F(i)) = proj.get(1) else { return V::Enum(e) };
                let mut e2 = (*e).clone();
                let mut pay = match e2.pay.remove(k) {
                    Some(p) => p,
                    None => Pay { vals: self.lazy_pay(st, &e, *k), facts: vec![] },
                };
                if *i < pay.vals.len() {
                    let old = std::mem::replace(&mut pay.vals[*i], V::Uninit);
                    pay.vals[*i] = self.put(st, old, &proj[2..], v);
                }
                e2.pay.insert(*k, pay);
                V::Enum(Rc::new(e2))
            }
            (V::Boxed(b), P::Box) => V::Boxed(Rc::new(self.put(st, (*b).clone(), &proj[1..], v))),
            (V::Cell { v: c, borrowed }, P::In) => V::Cell { v: Rc::new(self.put(st, (*c).clone(), &proj[1..], v)), borrowed },
            (V::Seq(s), P::Idx(i)) => {
                let mut s2 = (*s).clone();
                let pos = s2.known.iter().position(|(j, _)| j == i).or_else(|| s2.known.iter().position(|(j, _)| prove(&st.facts, &Fact::Eq(i.sub(j)))));
                match pos {
                    Some(k) => {
                        let old = std::mem::replace(&mut s2.known[k].1, V::Uninit);
                        s2.known[k].1 = self.put(st, old, &proj[1..], v);
                    }
                    None => {
                        let nv = if proj.len() == 1 {
                            v
                        } else {
                            let fresh = s2.known.iter().all(|(j, _)| prove(&st.facts, &Fact::Ne(i.sub(j))));
                            let old = match &s2.rest[..] {
                                [a] if fresh => {
                                    let a = a.clone();
                                    self.instance(st, &a, Some(i), hash(&(self.site(), "put", i))).0
                                }
                                _ => {
                                    st.imp = true;
                                    if std::env::var("VF_SEQ").is_ok() {
                                        eprintln!("PUT {} in {} at {}", show(i), V::Seq(s.clone()).show(), self.here());
                                    }
                                    self.note_unmodelled(&format!("part of an unknown element in {}", self.here()));
                                    V::Uninit
                                }
                            };
                            self.put(st, old, &proj[1..], v)
                        };
                        self.seq_set(st, &mut s2, i, nv);
                    }
                }
                V::Seq(Rc::new(s2))
            }
            (V::Uninit, P::F(i)) => {
                let mut w = vec![V::Uninit; *i + 1];
                w[*i] = self.put(st, V::Uninit, &proj[1..], v);
                V::agg(w)
            }
            (V::Top(t, k, imp), P::F(_)) => {
                // Expand one level.
                if let TyK::Adt { kind: AdtK::Struct, vars, .. } = self.ty(t) {
                    let a: Vec<V> = (0..vars[0].fields.len()).map(|i| self.expand_top(st, t, k, imp, &P::F(i))).collect();
                    return self.put(st, V::agg(a), proj, v);
                }
                st.imp = true;
                V::Top(t, k, true)
            }
            (r @ (V::Int(_) | V::Buf { .. } | V::Seq(_) | V::Boxed(_) | V::Tok(..) | V::Shared(_)), P::F(_)) => self.put(st, r, &proj[1..], v),
            (r @ (V::Int(_) | V::Buf { .. } | V::Seq(_) | V::Tok(..)), P::Box) => self.put(st, r, &proj[1..], v),
            (r, _) => {
                st.imp = true;
                self.note_unmodelled("write through an unknown place");
                let _ = r;
                V::Top(0, hash(&("badput", proj.len())), true)
            }
        }
    }
    /// Sets an element at an index not known to be any of the known ones.
    pub fn seq_set(&self, st: &mut State, s: &mut SeqV, i: &Lin, v: V) {
        let mut keep = vec![];
        for (j, w) in std::mem::take(&mut s.known) {
            if prove(&st.facts, &Fact::Ne(i.sub(&j))) {
                keep.push((j, w));
            } else {
                // May be overwritten: the old value stays possible.
                let a = alt_of(&st.facts, &j, &w, None);
                add_alt(&mut s.rest, a, hash(&("ss", i)), &st.facts);
            }
        }
        s.known = keep;
        s.known.push((i.clone(), v));
    }
    /// Makes element i of a sequence a known one; several outcomes if it may
    /// alias another known element or has several alternatives.
    pub fn seq_at(&self, mut st: State, p: &Place, i: &Lin) -> Vec<(State, Lin)> {
        let v = self.read(&mut st, p);
        let V::Seq(s) = v else {
            return vec![(st, i.clone())];
        };
        if s.known.iter().any(|(j, _)| j == i) {
            return vec![(st, i.clone())];
        }
        for (j, _) in &s.known {
            if prove(&st.facts, &Fact::Eq(i.sub(j))) {
                return vec![(st, j.clone())];
            }
        }
        let mut out = vec![];
        for (j, _) in &s.known {
            let mut t = st.clone();
            if t.assume(&Cond::fact(Fact::Eq(i.sub(j)))) {
                out.push((t, j.clone()));
            }
            if !st.assume(&Cond::fact(Fact::Ne(i.sub(j)))) {
                return out;
            }
        }
        if s.rest.is_empty() {
            if s.known.is_empty() {
                st.imp = true;
                self.note_unmodelled("element of an empty sequence");
                let mut s2 = (*s).clone();
                s2.known.push((i.clone(), V::Top(0, hash(&("se", i)), true)));
                self.write(&mut st, p, V::Seq(Rc::new(s2)));
                out.push((st, i.clone()));
            }
            return out;
        }
        for (k, a) in s.rest.iter().enumerate() {
            let mut t = st.clone();
            let site = self.site();
            let (v, ok) = self.instance(&mut t, a, Some(i), hash(&(site, k, p)));
            if !ok {
                continue;
            }
            let mut s2 = (*s).clone();
            s2.known.push((i.clone(), v));
            self.write(&mut t, p, V::Seq(Rc::new(s2)));
            out.push((t, i.clone()));
        }
        out
    }
    pub fn site(&self) -> u64 {
        self.stack.borrow().last().map(|x| x.2).unwrap_or(0)
    }
    /// A fresh copy of an alternative; false if its facts contradict the state.
    pub fn instance(&self, st: &mut State, a: &Alt, i: Option<&Lin>, key: u64) -> (V, bool) {
        let mut m = HashMap::new();
        for b in &a.bound {
            if let Atom::Sym(k, lo, hi, imp) = atom(*b) {
                m.insert(*b, Lin::a(mk(Atom::Sym(hash(&(key, k)), lo, hi, imp))));
            }
        }
        let (id, _) = idx_sym().single().unwrap();
        match i {
            Some(i) => {
                m.insert(id, i.clone());
            }
            None => {
                m.insert(id, sym(hash(&(key, "idx")), Some(0), Some(umax(63))));
            }
        }
        let mut s = Subst::new(m);
        let mut conts = BTreeSet::new();
        visit(&a.v, &mut |x| {
            if let Err(c) = x {
                bases_of(c, &mut conts);
            }
        });
        for c in conts {
            if let Cont::Fresh(k, imp) = cont(c) {
                s.cm.insert(c, (mkc(Cont::Fresh(hash(&(key, k)), imp)), Lin::c(0)));
            }
        }
        let v = map_v(&a.v, &mut s);
        for f in &a.facts {
            if !st.facts.assume(&map_fact(f, &mut s)) {
                return (v, false);
            }
        }
        (v, true)
    }

    // ---- loads ----------------------------------------------------------------

    /// Narrows a content range to the part of a patch it lies in.
    pub fn resolve(&self, st: &State, mut c: Cid, mut off: Lin, len: &Lin) -> (Cid, Lin) {
        for _ in 0..64 {
            let Cont::Patch { base, off: po, len: pl, src, soff } = cont(c) else { break };
            let pe = po.add(&pl);
            let e = off.add(len);
            if prove(&st.facts, &Fact::Ge(off.sub(&po))) && prove(&st.facts, &Fact::Ge(pe.sub(&e))) {
                off = off.sub(&po).add(&soff);
                c = src;
            } else if prove(&st.facts, &Fact::Ge(po.sub(&e))) || prove(&st.facts, &Fact::Ge(off.sub(&pe))) || prove(&st.facts, &Fact::Eq(pl.clone())) {
                c = base;
            } else if e.t.len() <= 12 && prove_e(&st.facts, &Fact::Ge(off.sub(&po)), 1) && prove_e(&st.facts, &Fact::Ge(pe.sub(&e)), 1) {
                off = off.sub(&po).add(&soff);
                c = src;
            } else {
                break;
            }
        }
        (c, off)
    }
    pub fn load(&self, st: &State, c: Cid, off: &Lin, w: u8, be: bool) -> Lin {
        let (c, off) = self.resolve(st, c, off.clone(), &Lin::c(w as i128));
        if let Cont::Patch { .. } = cont(c) {
            if w > 1 {
                // Byte by byte.
                let mut r = Lin::c(0);
                for j in 0..w as i128 {
                    let p = if be { j } else { w as i128 - 1 - j };
                    r = r.scale(256).add(&self.load(st, c, &off.addk(p), 1, false));
                }
                return r;
            }
        }
        if let Cont::Const(v) = cont(c) {
            if off.is_c().is_none() && w == 1 && v.len() <= 1 {
                return Lin::c(v.first().copied().unwrap_or(0) as i128);
            }
        }
        load_raw(c, &off, w, be)
    }
    /// A view of the content of a byte buffer value (Buf or View or slice of memory).
    pub fn bytes(&self, st: &mut State, v: &V) -> Option<(Cid, Lin, Lin)> {
        match v {
            V::View { c, off, len } | V::Buf { c, off, len } => Some((*c, off.clone(), len.clone())),
            V::MSlice(p, o, l) => match self.read(st, p) {
                V::Buf { c, off, .. } => Some((c, off.add(o), l.clone())),
                _ => None,
            },
            V::Ref(p) => {
                let x = self.read(st, p);
                match x {
                    V::Buf { c, off, len } => Some((c, off, len)),
                    V::View { .. } | V::MSlice(..) | V::Ref(_) => self.bytes(st, &x),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    /// Overwrites part of a byte buffer in memory.
    pub fn store(&self, st: &mut State, p: &Place, at: &Lin, len: &Lin, src: Cid, soff: &Lin) {
        if len.is_c() == Some(0) {
            return;
        }
        if self.trace.get() >= 1500 {
            eprintln!("STORE {} at {} len {} src {} off {}", show_place(p), show(at), show(len), show_cont(src), show(soff));
        }
        match self.read(st, p) {
            V::Buf { c, off, len: bl } => {
                let o = off.add(at);
                // Whole buffer replaced: forget the old content.
                let whole = at.is_c() == Some(0) && (*len == bl || prove(&st.facts, &Fact::Eq(len.sub(&bl))));
                let (s2, so2) = self.resolve(st, src, soff.clone(), len);
                if whole {
                    self.write(st, p, V::Buf { c: s2, off: so2, len: bl });
                    return;
                }
                // Drop patches that are covered.
                let mut base = c;
                for _ in 0..8 {
                    if let Cont::Patch { base: b, off: po, len: pl, .. } = cont(base) {
                        if prove(&st.facts, &Fact::Ge(po.sub(&o))) && prove(&st.facts, &Fact::Ge(o.add(len).sub(&po.add(&pl)))) {
                            base = b;
                            continue;
                        }
                    }
                    break;
                }
                // Extending a contiguous copy.
                if let Cont::Patch { base: b, off: po, len: pl, src: ps, soff: pso } = cont(base) {
                    if ps == s2 && po.add(&pl) == o && pso.add(&pl) == so2 {
                        let n = mkc(Cont::Patch { base: b, off: po, len: pl.add(len), src: ps, soff: pso });
                        self.write(st, p, V::Buf { c: n, off, len: bl });
                        return;
                    }
                }
                if patch_depth(base) > 24 {
                    base = mkc(Cont::Fresh(hash(&("deep", base)), true));
                }
                let n = mkc(Cont::Patch { base, off: o, len: len.clone(), src: s2, soff: so2 });
                self.write(st, p, V::Buf { c: n, off, len: bl });
            }
            _ => {
                st.imp = true;
                self.note_unmodelled("store into a non-buffer");
            }
        }
    }

    // ---- places -----------------------------------------------------------------

    pub fn place(&self, fr: &Fr, st: &mut State, pl: &Pl) -> RP {
        let mut cur = RP::M(Place::cell(lc(fr.ctx, pl.local)));
        let mut ty = fr.body.locals[pl.local];
        let mut i = 0;
        while i < pl.proj.len() {
            let x = &pl.proj[i];
            i += 1;
            cur = match x {
                Pj::Deref => {
                    let v = match &cur {
                        RP::M(p) => self.read(st, p),
                        RP::Val(v) | RP::Fat(v) => v.clone(),
                        RP::ByteM(..) | RP::ByteV(..) => V::Top(0, 0, true),
                    };
                    let nty = match self.ty(ty) {
                        TyK::Ref(t, _) | TyK::Ptr(t) => *t,
                        TyK::Adt { targs, .. } if !targs.is_empty() => targs[0],
                        _ => ty,
                    };
                    let r = match v {
                        V::Ref(p) => RP::M((*p).clone()),
                        V::MSlice(p, o, _) if self.is_u8(nty) => RP::ByteM((*p).clone(), o),
                        V::View { .. } | V::MSlice(..) => RP::Fat(v),
                        V::Boxed(_) => match cur {
                            RP::M(p) => RP::M(p.with(P::Box)),
                            _ => RP::Val(V::Top(nty, 1, true)),
                        },
                        V::Buf { .. } | V::Seq(_) | V::Map(_) => cur,
                        V::Shared(c) => RP::M(Place::cell(c)),
                        V::Tok(..) => RP::Val(v),
                        V::Top(_, k, imp) => {
                            let key = hash(&(k, "deref"));
                            if st.get(key) == V::Uninit {
                                let nv = self.sym_d(st, nty, key, 4, imp);
                                st.set(key, nv);
                            }
                            RP::M(Place::cell(key))
                        }
                        _ => RP::Val(V::Top(nty, hash(&(fr.ctx, pl.local, i)), true)),
                    };
                    ty = nty;
                    r
                }
                Pj::Field(f, t) => {
                    let r = match cur {
                        RP::M(p) => {
                            let v = self.read(st, &p);
                            match v {
                                V::Int(_) | V::Buf { .. } | V::Seq(_) | V::Boxed(_) | V::Tok(..) | V::Shared(_) | V::Map(_) | V::Guard(_) => RP::M(p),
                                _ => RP::M(p.with(P::F(*f))),
                            }
                        }
                        RP::Val(v) => {
                            let w = self.walk(st, v, &[P::F(*f)]);
                            RP::Val(w)
                        }
                        RP::Fat(v) => RP::Fat(v),
                        x => x,
                    };
                    ty = *t;
                    r
                }
                Pj::Down(k) => match cur {
                    RP::M(p) => RP::M(p.with(P::V(*k))),
                    RP::Val(v) => RP::Val(self.walk(st, v, &[P::V(*k)])),
                    x => x,
                },
                Pj::Index(l) => {
                    let iv = self.read(st, &Place::cell(lc(fr.ctx, *l)));
                    let idx = self.int(st, &iv, hash(&(fr.ctx, *l)));
                    let r = self.elem(st, cur, idx);
                    ty = self.elem_ty(ty);
                    r
                }
                Pj::ConstIndex(k, from_end) => {
                    let n = self.rlen(st, &cur);
                    let idx = if *from_end { n.addk(-(*k as i128)) } else { Lin::c(*k as i128) };
                    let r = self.elem(st, cur, idx);
                    ty = self.elem_ty(ty);
                    r
                }
                Pj::Sub(a, b, from_end) => {
                    let n = self.rlen(st, &cur);
                    let len = if *from_end { n.addk(-(*a as i128) - *b as i128) } else { Lin::c(*b as i128 - *a as i128) };
                    match cur {
                        RP::Fat(V::View { c, off, .. }) => RP::Fat(V::View { c, off: off.addk(*a as i128), len }),
                        RP::Fat(V::MSlice(p, o, _)) => RP::Fat(V::MSlice(p, o.addk(*a as i128), len)),
                        RP::M(p) => RP::Fat(V::MSlice(Rc::new(p), Lin::c(*a as i128), len)),
                        x => x,
                    }
                }
                Pj::Other => RP::Val(V::Top(0, hash(&(fr.ctx, pl.local, "other")), true)),
            };
        }
        cur
    }
    fn elem_ty(&self, ty: usize) -> usize {
        match self.ty(ty) {
            TyK::Array(e, _) | TyK::Slice(e) => *e,
            _ => ty,
        }
    }
    fn elem(&self, st: &mut State, cur: RP, idx: Lin) -> RP {
        match cur {
            RP::M(p) => match self.read(st, &p) {
                V::Buf { .. } => RP::ByteM(p, idx),
                V::Seq(_) => {
                    let r = self.seq_at(st.clone(), &p, &idx);
                    if let Some((s, i)) = r.into_iter().next() {
                        // Several outcomes are not split here.
                        *st = s;
                        RP::M(p.with(P::Idx(i)))
                    } else {
                        RP::M(p.with(P::Idx(idx)))
                    }
                }
                _ => RP::Val(V::Top(0, hash(&("elem", &p)), true)),
            },
            RP::Fat(v @ V::View { .. }) => RP::ByteV(v, idx),
            RP::Fat(V::MSlice(p, o, _)) => {
                let i = o.add(&idx);
                self.elem(st, RP::M((*p).clone()), i)
            }
            RP::Val(v @ V::Buf { .. }) => RP::ByteV(v, idx),
            _ => RP::Val(V::Top(0, hash(&("elem2", &idx)), true)),
        }
    }
    fn rlen(&self, st: &mut State, r: &RP) -> Lin {
        match r {
            RP::M(p) => match self.read(st, p) {
                V::Buf { len, .. } => len,
                V::Seq(s) => s.len.clone(),
                V::View { len, .. } | V::MSlice(_, _, len) => len,
                _ => sym_imp(hash(&("len", p)), Some(0), Some(umax(63))),
            },
            RP::Fat(V::View { len, .. }) | RP::Fat(V::MSlice(_, _, len)) => len.clone(),
            RP::Val(V::Buf { len, .. }) => len.clone(),
            _ => sym_imp(hash(&("rlen", 0)), Some(0), Some(umax(63))),
        }
    }
    pub fn read_rp(&self, st: &mut State, r: &RP) -> V {
        match r {
            RP::M(p) => self.read(st, p),
            RP::Fat(v) => match v {
                // A by-value read of an unsized place does not happen; arrays behind views do.
                V::View { c, off, len } => V::Buf { c: *c, off: off.clone(), len: len.clone() },
                V::MSlice(p, o, l) => match self.read(st, p) {
                    V::Buf { c, off, .. } => V::Buf { c, off: off.add(o), len: l.clone() },
                    v => v,
                },
                v => v.clone(),
            },
            RP::ByteM(p, i) => match self.read(st, p) {
                V::Buf { c, off, .. } => V::Int(self.load(st, c, &off.add(i), 1, false)),
                _ => V::Top(0, 3, true),
            },
            RP::ByteV(v, i) => match v {
                V::View { c, off, .. } | V::Buf { c, off, .. } => V::Int(self.load(st, *c, &off.add(i), 1, false)),
                _ => V::Top(0, 4, true),
            },
            RP::Val(v) => v.clone(),
        }
    }
    pub fn write_rp(&self, st: &mut State, r: &RP, v: V) {
        match r {
            RP::M(p) => self.write(st, p, v),
            RP::ByteM(p, i) => {
                let b = self.int(st, &v, 9);
                let src = mkc(Cont::Int(b, 1, false));
                self.store(st, p, i, &Lin::c(1), src, &Lin::c(0));
            }
            _ => {
                st.imp = true;
                self.note_unmodelled("assignment through an unknown place");
            }
        }
    }
    pub fn int(&self, _st: &State, v: &V, key: u64) -> Lin {
        match v {
            V::Int(l) => l.clone(),
            V::Bool(Cond::T) => Lin::c(1),
            V::Bool(Cond::F) => Lin::c(0),
            V::Bool(c) => match c {
                Cond::A(Fact::Ge(l)) if l.addk(1).fits(0, 1) && l.t.len() == 1 => l.addk(1),
                c => {
                    // A symbol that is one exactly if the condition holds; the link is lost.
                    sym_imp(hash(&("b2i", c)), Some(0), Some(1))
                }
            },
            V::Enum(e) => e.tag.clone(),
            V::Agg(a) if a.len() == 1 => self.int(_st, &a[0], key),
            V::Top(_, k, imp) => {
                if *imp { sym_imp(*k, None, None) } else { sym(*k, None, None) }
            }
            _ => sym_imp(hash(&("int", key)), None, None),
        }
    }
    pub fn bool_(&self, v: &V, key: u64) -> Cond {
        match v {
            V::Bool(c) => c.clone(),
            V::Int(l) => Cond::fact(Fact::Ne(l.clone())),
            V::Top(_, k, imp) => {
                let l = if *imp { sym_imp(*k, Some(0), Some(1)) } else { sym(*k, Some(0), Some(1)) };
                Cond::fact(Fact::Ge(l.addk(-1)))
            }
            _ => Cond::fact(Fact::Ge(sym_imp(hash(&("bool", key)), Some(0), Some(1)).addk(-1))),
        }
    }

    // ---- operands and rvalues -----------------------------------------------------

    pub fn op(&self, fr: &Fr, st: &mut State, o: &Op) -> V {
        match o {
            Op::Copy(p) => {
                let r = self.place(fr, st, p);
                self.read_rp(st, &r)
            }
            Op::Move(p) => {
                let r = self.place(fr, st, p);
                let v = self.read_rp(st, &r);
                if !p.proj.iter().any(|x| matches!(x, Pj::Deref)) {
                    match (&r, &v) {
                        (_, V::Int(_) | V::Bool(_)) => {}
                        (RP::M(q), _) => self.write(st, q, V::Uninit),
                        _ => {}
                    }
                }
                v
            }
            Op::Const(t, j) => self.konst(st, *t, j),
            Op::Other => V::Top(0, 5, true),
        }
    }
    pub fn op_ty(&self, fr: &Fr, o: &Op) -> usize {
        match o {
            Op::Copy(p) | Op::Move(p) => self.pl_ty(fr, p),
            Op::Const(t, _) => *t,
            Op::Other => 0,
        }
    }
    pub fn pl_ty(&self, fr: &Fr, p: &Pl) -> usize {
        let mut ty = fr.body.locals[p.local];
        for x in &p.proj {
            ty = match x {
                Pj::Deref => match self.ty(ty) {
                    TyK::Ref(t, _) | TyK::Ptr(t) => *t,
                    TyK::Adt { targs, .. } if !targs.is_empty() => targs[0],
                    _ => ty,
                },
                Pj::Field(_, t) => *t,
                Pj::Index(_) | Pj::ConstIndex(..) => self.elem_ty(ty),
                _ => ty,
            };
        }
        ty
    }
    pub fn bits(&self, ty: usize) -> (u32, bool) {
        match self.ty(ty) {
            TyK::Int { bits, signed } => (*bits, *signed),
            TyK::Bool => (1, false),
            TyK::Char => (32, false),
            TyK::Adt { targs, path, .. } if path == "std::num::NonZero" && !targs.is_empty() => self.bits(targs[0]),
            _ => (64, false),
        }
    }
    pub fn wrap(&self, l: &Lin, ty: usize) -> Lin {
        let (b, s) = self.bits(ty);
        if s { sext(l, b) } else { trunc(l, b) }
    }
    pub fn range_cond(&self, l: &Lin, ty: usize) -> Cond {
        let (b, s) = self.bits(ty);
        let (lo, hi) = if s { (-(1i128 << (b.min(126) - 1)), (1i128 << (b.min(126) - 1)) - 1) } else { (0, umax(b)) };
        Cond::and(vec![Cond::fact(Fact::Ge(l.addk(-lo))), Cond::fact(Fact::Ge(l.neg().addk(hi)))])
    }
    pub fn arith(&self, st: &State, op: &str, a: &Lin, b: &Lin, ty: usize) -> Lin {
        let (w, _) = self.bits(ty);
        match op {
            "Add" | "AddUnchecked" => a.add(b),
            "Sub" | "SubUnchecked" => a.sub(b),
            "Mul" | "MulUnchecked" => mul(a, b),
            "Div" => {
                if prove(&st.facts, &Fact::Ge(a.clone())) && prove(&st.facts, &Fact::Ge(b.addk(-1))) { div_l(a, b) } else { sym_imp(hash(&("div", a, b)), None, None) }
            }
            "Rem" => {
                if prove(&st.facts, &Fact::Ge(a.clone())) && prove(&st.facts, &Fact::Ge(b.addk(-1))) {
                    a.sub(&mul(&div_l(a, b), b))
                } else {
                    sym_imp(hash(&("rem", a, b)), None, None)
                }
            }
            "BitAnd" => bitand(a, b, w),
            "BitOr" => bitor(a, b, w),
            "BitXor" => bitxor(a, b, w),
            "Shl" | "ShlUnchecked" => mul(a, &pow2(b)),
            "Shr" | "ShrUnchecked" => {
                if let Some(k) = b.is_c() {
                    if (0..120).contains(&k) && a.range().0.is_some_and(|x| x >= 0) {
                        return div_c(a, 1i128 << k);
                    }
                }
                if a.range().0.is_some_and(|x| x >= 0) { div_l(a, &pow2(b)) } else { sym_imp(hash(&("shr", a, b)), None, None) }
            }
            _ => sym_imp(hash(&(op, a, b)), None, None),
        }
    }
    /// In-range result of arithmetic that wraps: kept exact if provably in range.
    pub fn wrapped(&self, st: &State, l: Lin, ty: usize) -> Lin {
        let (b, s) = self.bits(ty);
        let (lo, hi) = if s { (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1) } else { (0, umax(b)) };
        if l.fits(lo, hi) || (prove(&st.facts, &Fact::Ge(l.addk(-lo))) && prove(&st.facts, &Fact::Ge(l.neg().addk(hi)))) {
            return l;
        }
        self.wrap(&l, ty)
    }
    pub fn compare(&self, st: &mut State, op: &str, a: &V, b: &V) -> V {
        let c = match (a, b) {
            (V::Bool(x), V::Bool(y)) => {
                let eq = match (x, y) {
                    (Cond::T, y) => y.clone(),
                    (x, Cond::T) => x.clone(),
                    (Cond::F, y) => y.not(),
                    (x, Cond::F) => x.not(),
                    _ => Cond::or(vec![Cond::and(vec![x.clone(), y.clone()]), Cond::and(vec![x.not(), y.not()])]),
                };
                match op {
                    "Eq" => eq,
                    "Ne" => eq.not(),
                    _ => self.bool_(&V::Top(0, hash(&("cmpb", op, x, y)), true), 0),
                }
            }
            _ => {
                let (x, y) = (self.int(st, a, 1), self.int(st, b, 2));
                let d = x.sub(&y);
                Cond::fact(match op {
                    "Eq" => Fact::Eq(d),
                    "Ne" => Fact::Ne(d),
                    "Lt" => Fact::Ge(d.neg().addk(-1)),
                    "Le" => Fact::Ge(d.neg()),
                    "Gt" => Fact::Ge(d.addk(-1)),
                    _ => Fact::Ge(d),
                })
            }
        };
        V::Bool(c)
    }
    fn rvalue(&self, fr: &Fr, st: &mut State, r: &Rv, dty: usize) -> V {
        match r {
            Rv::Use(o) => self.op(fr, st, o),
            Rv::Ref(m, p) | Rv::Addr(m, p) => {
                let x = self.place(fr, st, p);
                match x {
                    RP::M(q) => {
                        let to = match self.ty(dty) {
                            TyK::Ref(t, _) | TyK::Ptr(t) => *t,
                            _ => 0,
                        };
                        match self.ty(to) {
                            TyK::Slice(_) | TyK::Str => {
                                let v = self.read(st, &q);
                                match v {
                                    V::Buf { c, off, len } if !*m => V::View { c, off, len },
                                    V::Buf { len, .. } => V::MSlice(Rc::new(q), Lin::c(0), len),
                                    V::Seq(s) => V::MSlice(Rc::new(q), Lin::c(0), s.len.clone()),
                                    V::View { .. } | V::MSlice(..) => v,
                                    _ => V::Ref(Rc::new(q)),
                                }
                            }
                            TyK::Dyn(_) => match self.read(st, &q) {
                                V::Tok(t, k) => V::Tok(t, k),
                                _ => V::Ref(Rc::new(q)),
                            },
                            _ => V::Ref(Rc::new(q)),
                        }
                    }
                    RP::Fat(v) => {
                        if !*m {
                            if let V::MSlice(p, o, l) = &v {
                                if let V::Buf { c, off, .. } = self.read(st, p) {
                                    return V::View { c, off: off.add(o), len: l.clone() };
                                }
                            }
                        }
                        v
                    }
                    RP::ByteM(q, i) => {
                        // A reference to one byte: a cell of its own (reads only) or a one-byte slice.
                        if *m {
                            V::MSlice(Rc::new(q), i, Lin::c(1))
                        } else {
                            let v = self.read_rp(st, &RP::ByteM(q, i));
                            let cell = hash(&(fr.ctx, "byte", p.local, self.site()));
                            st.set(cell, v);
                            V::Ref(Rc::new(Place::cell(cell)))
                        }
                    }
                    RP::ByteV(v, i) => {
                        let b = self.read_rp(st, &RP::ByteV(v, i));
                        let cell = hash(&(fr.ctx, "byte", p.local, self.site()));
                        st.set(cell, b);
                        V::Ref(Rc::new(Place::cell(cell)))
                    }
                    RP::Val(v) => match v {
                        V::Tok(..) => v,
                        v => {
                            let cell = hash(&(fr.ctx, "tmpref", p.local, self.site()));
                            st.set(cell, v);
                            V::Ref(Rc::new(Place::cell(cell)))
                        }
                    },
                }
            }
            Rv::Bin(o, a, b) => {
                let t = self.op_ty(fr, a);
                let (x, y) = (self.op(fr, st, a), self.op(fr, st, b));
                match o.as_str() {
                    "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge" => self.compare(st, o, &x, &y),
                    "Cmp" => {
                        let (p, q) = (self.int(st, &x, 1), self.int(st, &y, 2));
                        // Ordering: Less = 0, Equal = 1, Greater = 2 by index.
                        let d = p.sub(&q);
                        let tag = if st.holds(&Cond::fact(Fact::Ge(d.addk(-1)))) {
                            Lin::c(2)
                        } else if st.holds(&Cond::fact(Fact::Eq(d.clone()))) {
                            Lin::c(1)
                        } else if st.holds(&Cond::fact(Fact::Ge(d.neg().addk(-1)))) {
                            Lin::c(0)
                        } else {
                            fun("cmp", vec![Arg::L(p), Arg::L(q)], Some(0), Some(2))
                        };
                        V::Enum(Rc::new(En { ty: dty, tag, pay: (0..3).map(|k| (k, Pay { vals: vec![], facts: vec![match k { 0 => Fact::Ge(d.neg().addk(-1)), 1 => Fact::Eq(d.clone()), _ => Fact::Ge(d.addk(-1)) }] })).collect(), key: 0 }))
                    }
                    _ => {
                        if let (V::Bool(p), V::Bool(q)) = (&x, &y) {
                            return V::Bool(match o.as_str() {
                                "BitAnd" => Cond::and(vec![p.clone(), q.clone()]),
                                "BitOr" => Cond::or(vec![p.clone(), q.clone()]),
                                _ => Cond::or(vec![Cond::and(vec![p.clone(), q.not()]), Cond::and(vec![p.not(), q.clone()])]),
                            });
                        }
                        if o == "Offset" {
                            return V::Top(dty, hash(&(fr.ctx, "offset", self.site())), true);
                        }
                        let (p, q) = (self.int(st, &x, 1), self.int(st, &y, 2));
                        let l = self.arith(st, o, &p, &q, t);
                        V::Int(self.wrapped(st, l, t))
                    }
                }
            }
            Rv::CBin(o, a, b) => {
                let t = self.op_ty(fr, a);
                let (x, y) = (self.op(fr, st, a), self.op(fr, st, b));
                let (p, q) = (self.int(st, &x, 1), self.int(st, &y, 2));
                let l = self.arith(st, o, &p, &q, t);
                let over = self.range_cond(&l, t).not();
                V::agg(vec![V::Int(l), V::Bool(over)])
            }
            Rv::Un(o, a) => {
                let t = self.op_ty(fr, a);
                let x = self.op(fr, st, a);
                match o.as_str() {
                    "Not" => match x {
                        V::Bool(c) => V::Bool(c.not()),
                        v => {
                            let (b, s) = self.bits(t);
                            let l = self.int(st, &v, 1);
                            V::Int(if s { l.neg().addk(-1) } else { Lin::c(umax(b)).sub(&l) })
                        }
                    },
                    "Neg" => {
                        let l = self.int(st, &x, 1).neg();
                        V::Int(self.wrapped(st, l, t))
                    }
                    "PtrMetadata" => V::Int(self.vlen(st, &x)),
                    _ => V::Top(dty, hash(&(fr.ctx, self.site(), "un")), true),
                }
            }
            Rv::Cast(k, a, to) => {
                let from = self.op_ty(fr, a);
                match k.as_str() {
                    "IntToInt" => {
                        let x = self.op(fr, st, a);
                        let l = self.int(st, &x, 1);
                        V::Int(self.wrapped(st, l, *to))
                    }
                    "PointerCoercion(Unsize)" => {
                        let x = self.op(fr, st, a);
                        match (&x, self.ty(*to)) {
                            (V::Ref(p), TyK::Ref(t, _)) | (V::Ref(p), TyK::Ptr(t)) if matches!(self.ty(*t), TyK::Slice(_)) => {
                                let mu = match self.ty(*to) {
                                    TyK::Ref(_, m) => *m,
                                    _ => true,
                                };
                                let v = self.read(st, p);
                                match v {
                                    V::Buf { c, off, len } if !mu => V::View { c, off, len },
                                    V::Buf { len, .. } => V::MSlice(p.clone(), Lin::c(0), len),
                                    V::Seq(s) => V::MSlice(p.clone(), Lin::c(0), s.len.clone()),
                                    _ => x.clone(),
                                }
                            }
                            _ => x,
                        }
                    }
                    "Transmute" | "BoxDerefTransmute" => {
                        // A box dereference: take the address of the content.
                        if let (Op::Copy(p) | Op::Move(p), TyK::Ptr(_)) = (a, self.ty(*to)) {
                            let rp = self.place(fr, st, p);
                            if let RP::M(q) = &rp {
                                match self.read(st, q) {
                                    V::Boxed(_) => return V::Ref(Rc::new(q.with(P::Box))),
                                    V::Buf { .. } | V::Seq(_) => return V::Ref(Rc::new(q.clone())),
                                    V::Tok(t, k) => return V::Tok(t, k),
                                    _ => {}
                                }
                            }
                        }
                        let x = self.op(fr, st, a);
                        match (self.ty(*to), &x) {
                            (TyK::Int { .. } | TyK::Char, V::Int(_)) => x,
                            (TyK::Int { .. }, V::Bool(_)) => {
                                let l = self.int(st, &x, 1);
                                V::Int(l)
                            }
                            (TyK::Bool, V::Int(l)) => V::Bool(Cond::fact(Fact::Ne(l.clone()))),
                            // Option<NonZero<T>> from T.
                            (TyK::Adt { path, kind: AdtK::Enum, .. }, V::Int(l)) if path == "std::option::Option" => {
                                let nz = Cond::fact(Fact::Ne(l.clone()));
                                match nz {
                                    Cond::T => self.some(*to, V::Int(l.clone())),
                                    Cond::F => self.none(*to),
                                    _ => {
                                        let tag = sub_one(l);
                                        V::Enum(Rc::new(En {
                                            ty: *to,
                                            tag,
                                            pay: [
                                                (0, Pay { vals: vec![], facts: vec![Fact::Eq(l.clone())] }),
                                                (1, Pay { vals: vec![V::Int(l.clone())], facts: vec![Fact::Ge(l.addk(-1))] }),
                                            ]
                                            .into_iter()
                                            .collect(),
                                            key: 0,
                                        }))
                                    }
                                }
                            }
                            (TyK::Int { bits, .. }, V::Buf { c, off, .. }) => V::Int(self.load(st, *c, off, (*bits / 8) as u8, false)),
                            (TyK::Array(..), V::Int(l)) => {
                                let (b, _) = self.bits(from);
                                V::Buf { c: mkc(Cont::Int(l.clone(), (b / 8) as u8, false)), off: Lin::c(0), len: Lin::c((b / 8) as i128) }
                            }
                            _ => x,
                        }
                    }
                    "PtrToPtr" => self.op(fr, st, a),
                    _ => {
                        if k.starts_with("PointerCoercion") {
                            let x = self.op(fr, st, a);
                            return x;
                        }
                        V::Top(*to, hash(&(fr.ctx, self.site(), "cast")), true)
                    }
                }
            }
            Rv::Discr(p) => {
                let x = self.place(fr, st, p);
                let v = self.read_rp(st, &x);
                V::Int(self.discr(st, &v))
            }
            Rv::Len(p) => {
                let x = self.place(fr, st, p);
                V::Int(self.rlen(st, &x))
            }
            Rv::Repeat(o, n) => {
                let x = self.op(fr, st, o);
                let e = self.elem_ty(dty);
                if self.is_u8(e) {
                    let b = self.int(st, &x, 1);
                    let c = if b.is_c() == Some(0) { Cont::Zero } else { Cont::Fill(b) };
                    V::Buf { c: mkc(c), off: Lin::c(0), len: Lin::c(*n as i128) }
                } else if *n <= 64 {
                    V::Seq(Rc::new(SeqV { len: Lin::c(*n as i128), known: (0..*n).map(|i| (Lin::c(i as i128), x.clone())).collect(), rest: vec![] }))
                } else {
                    V::Seq(Rc::new(SeqV { len: Lin::c(*n as i128), known: vec![], rest: vec![Alt { v: x, facts: vec![], bound: vec![] }] }))
                }
            }
            Rv::AggArray(e, os) => {
                let vs: Vec<V> = os.iter().map(|o| self.op(fr, st, o)).collect();
                if self.is_u8(*e) {
                    let ls: Vec<Lin> = vs.iter().map(|v| self.int(st, v, 1)).collect();
                    if let Some(b) = ls.iter().map(|l| l.is_c()).collect::<Option<Vec<_>>>() {
                        let n = b.len();
                        return V::Buf { c: mkc(Cont::Const(b.iter().map(|x| *x as u8).collect())), off: Lin::c(0), len: Lin::c(n as i128) };
                    }
                    // The bytes of one load?
                    if let (Atom::Load(c, o, 1, _), 0) = (ls[0].single().map(|x| atom(x.0)).unwrap_or(Atom::Sym(0, None, None, true)), ls[0].k) {
                        if ls.iter().enumerate().all(|(i, l)| *l == load_raw(c, &o.addk(i as i128), 1, false)) {
                            return V::Buf { c, off: o, len: Lin::c(ls.len() as i128) };
                        }
                    }
                    let mut c = mkc(Cont::Zero);
                    for (i, l) in ls.iter().enumerate() {
                        let src = mkc(Cont::Int(l.clone(), 1, false));
                        c = mkc(Cont::Patch { base: c, off: Lin::c(i as i128), len: Lin::c(1), src, soff: Lin::c(0) });
                    }
                    return V::Buf { c, off: Lin::c(0), len: Lin::c(ls.len() as i128) };
                }
                let n = vs.len();
                V::Seq(Rc::new(SeqV { len: Lin::c(n as i128), known: vs.into_iter().enumerate().map(|(i, v)| (Lin::c(i as i128), v)).collect(), rest: vec![] }))
            }
            Rv::AggTuple(os) => V::agg(os.iter().map(|o| self.op(fr, st, o)).collect()),
            Rv::AggClosure(_, os) => V::agg(os.iter().map(|o| self.op(fr, st, o)).collect()),
            Rv::AggAdt(ty, var, os) => {
                let vs: Vec<V> = os.iter().map(|o| self.op(fr, st, o)).collect();
                match self.ty(*ty) {
                    TyK::Adt { kind: AdtK::Enum, .. } => {
                        crate::props::on_make(self, st, *ty, *var);
                        self.en(*ty, *var, vs)
                    }
                    TyK::Adt { path, .. } if path == "std::num::NonZero" => vs.into_iter().next().unwrap_or(V::Uninit),
                    _ => {
                        crate::names::on_wrap(self, st, *ty, &vs);
                        crate::ck::on_wrap(self, st, *ty, &vs);
                        V::agg(vs)
                    }
                }
            }
            Rv::AggPtr(os) => {
                let vs: Vec<V> = os.iter().map(|o| self.op(fr, st, o)).collect();
                match (&vs[0], vs.get(1)) {
                    (V::View { c, off, .. }, Some(V::Int(l))) => V::View { c: *c, off: off.clone(), len: l.clone() },
                    _ => V::Top(dty, hash(&(fr.ctx, self.site(), "rawptr")), true),
                }
            }
            Rv::Other => V::Top(dty, hash(&(fr.ctx, self.site(), "rv")), true),
        }
    }
    pub fn discr(&self, _st: &State, v: &V) -> Lin {
        match v {
            V::Enum(e) => {
                if let TyK::Adt { vars, .. } = self.ty(e.ty) {
                    if let Some(k) = e.tag.is_c() {
                        return Lin::c(vars.get(k as usize).map(|x| x.discr).unwrap_or(k));
                    }
                    if vars.iter().enumerate().all(|(i, x)| x.discr == i as i128) {
                        return e.tag.clone();
                    }
                    let d0 = vars[0].discr;
                    if vars.iter().enumerate().all(|(i, x)| x.discr == i as i128 + d0) {
                        return e.tag.addk(d0);
                    }
                }
                sym_imp(hash(&("discr", &e.tag)), None, None)
            }
            V::Top(_, k, imp) => {
                let key = hash(&(k, "tag"));
                if *imp { sym_imp(key, None, None) } else { sym(key, None, None) }
            }
            v => sym_imp(hash(&("discr2", v.show())), None, None),
        }
    }
    pub fn vlen(&self, st: &mut State, v: &V) -> Lin {
        match v {
            V::View { len, .. } | V::MSlice(_, _, len) | V::Buf { len, .. } => len.clone(),
            V::Seq(s) => s.len.clone(),
            V::Ref(p) => {
                let x = self.read(st, p);
                if matches!(x, V::Ref(_)) {
                    return sym_imp(hash(&("vlen", p)), Some(0), Some(umax(63)));
                }
                self.vlen(st, &x)
            }
            V::Top(_, k, imp) => {
                let key = hash(&(k, "len"));
                if *imp { sym_imp(key, Some(0), Some(umax(63))) } else { sym(key, Some(0), Some(umax(63))) }
            }
            v => sym_imp(hash(&("vlen", v.show())), Some(0), Some(umax(63))),
        }
    }

    // ---- control ----------------------------------------------------------------------

    pub fn call(&self, f: usize, args: Vec<V>, st: State, ctx: u64, dty: usize) -> Out {
        let fun = &self.p.fns[f];
        if let Some(m) = crate::models::find(self, f) {
            self.visited.borrow_mut().insert(f);
            return m(self, f, args, st, ctx, dty);
        }
        let depth = self.stack.borrow().len();
        if crate::cut::is_cut(self, f) {
            self.visited.borrow_mut().insert(f);
            return crate::cut::outcome(self, f, args, st, ctx, dty);
        }
        if let Some(body) = &fun.body.as_ref().filter(|_| !self.opaque_code(f)) {
            if std::env::var("VF_STD").is_ok() && !fun.name.contains("ext4_view") && !fun.name.contains("harness") {
                eprintln!("STD {}", fun.path);
            }
            if depth < 90 {
                if crate::memo::worth(self, f) {
                    return crate::memo::call(self, f, body, args, st, ctx);
                }
                return self.exec_fn(f, body, args, st, ctx);
            }
        }
        // Tuple-struct and variant constructors used as functions.
        if fun.body.is_none() {
            if let TyK::Adt { kind, vars, path, .. } = self.ty(fun.sig.1) {
                let last = fun.path.rsplit("::").next().unwrap_or("");
                if vars.len() > 0 && fun.sig.0.len() == args.len() && (fun.path == *path || fun.path.contains(path.rsplit("::").next().unwrap_or("?"))) {
                    if let Some(k) = vars.iter().position(|v| v.name == last && v.fields.len() == args.len()) {
                        let v = match kind {
                            AdtK::Enum => self.en(fun.sig.1, k, args),
                            _ => V::agg(args),
                        };
                        return vec![(st, v)];
                    }
                }
            }
        }
        self.havoc(f, args, st, ctx, dty)
    }
    /// Library code on representations of its own, which the values here do
    /// not have.
    fn opaque_code(&self, f: usize) -> bool {
        let n = &self.p.fns[f].path;
        const OPAQUE: &[&str] = &[
            "std::vec::", "std::collections::", "alloc::", "core::slice", "std::slice", "core::str", "std::str::", "std::string::", "std::array", "core::array", "std::rc::", "std::cell::", "std::boxed::", "std::intrinsics",
            "std::ptr::", "core::ptr::", "core::ub_checks", "std::fmt", "core::fmt", "std::hash", "core::hash", "std::iter::FromIterator", "std::iter::Extend", "std::path", "std::ffi", "std::io", "std::fs",
        ];
        const FINE: &[&str] = &["core::slice::ascii::", "std::boxed::convert::", "std::array::<impl std::default::Default"];
        let krate = self.p.fns[f].krate.as_str();
        if !matches!(krate, "std" | "core" | "alloc") {
            return false;
        }
        let n = n.trim_start_matches(['<', '&']);
        if FINE.iter().any(|x| n.starts_with(x)) {
            return false;
        }
        OPAQUE.iter().any(|x| n.starts_with(x))
    }
    /// The function being run is of the standard library.
    pub fn in_std(&self) -> bool {
        self.stack.borrow().last().is_some_and(|x| matches!(self.p.fns[x.0].krate.as_str(), "std" | "core" | "alloc"))
    }
    /// Unknown code: an arbitrary result; whatever it can reach mutably is lost.
    pub fn havoc(&self, f: usize, args: Vec<V>, mut st: State, ctx: u64, dty: usize) -> Out {
        let fun = &self.p.fns[f];
        self.note_unmodelled(&fun.name);
        if std::env::var("VF_UNK").is_ok() && self.unmodelled.borrow()[&fun.name] == 1 {
            eprintln!("havoc {} at {}", fun.name, self.where_());
        }
        for (i, a) in args.iter().enumerate() {
            let shared = fun.sig.0.get(i).is_some_and(|t| matches!(self.ty(*t), TyK::Ref(_, false)));
            match a {
                V::MSlice(p, o, l) if !shared => {
                    let c = mkc(Cont::Fresh(hash(&(ctx, "havoc")), true));
                    let (p, o, l) = (p.clone(), o.clone(), l.clone());
                    if let V::Buf { .. } = self.read(&mut st, &p) {
                        self.store(&mut st, &p, &o, &l, c, &Lin::c(0));
                    } else {
                        st.imp = true;
                    }
                }
                V::Ref(p) => {
                    let w = self.read(&mut st, p);
                    if reaches(&w, shared) {
                        st.imp = true;
                    }
                    if !shared {
                        match fun.sig.0.get(i).map(|t| self.ty(*t)) {
                            Some(TyK::Ref(to, _)) => {
                                let v = self.sym_d(&mut st, *to, hash(&(ctx, i, "havoc")), 2, true);
                                self.write(&mut st, p, v);
                            }
                            _ => st.imp = true,
                        }
                    }
                }
                V::MSlice(..) => {}
                a => {
                    if reaches(a, false) {
                        st.imp = true;
                    }
                }
            }
        }
        let v = self.sym_d(&mut st, dty, hash(&(ctx, "ret")), 2, true);
        vec![(st, v)]
    }
    pub fn exec_fn(&self, f: usize, body: &Body, args: Vec<V>, mut st: State, ctx: u64) -> Out {
        self.visited.borrow_mut().insert(f);
        let fr = Fr { f, body, ctx };
        let t0 = std::time::Instant::now();
        let mut args = args;
        if body.spread >= 0 {
            // The last formal is a tuple made of the remaining actuals; callers pass it as one.
        } else if args.len() >= 1 && (args.len() != body.argc || (args.len() == 2 && self.is_closure(f) && self.tupled(body, &args[1]))) {
            // A call through the closure traits: (self, (args...)).
            let n = args.len();
            if let V::Agg(a) = args[n - 1].clone() {
                args.truncate(n - 1);
                args.extend(a.iter().cloned());
            }
        }
        let given = args.clone();
        for (i, a) in args.into_iter().enumerate() {
            if i + 1 < body.locals.len() {
                st.set(lc(ctx, i + 1), a);
            }
        }
        self.stack.borrow_mut().push((f, body.blocks[0].loc, ctx));
        let depth = self.stack.borrow().len() as u32;
        let top = !self.prefix.get() && (depth == 1 || self.uncut.borrow().contains(&f));
        if top {
            crate::rules::on_enter(self, &mut st, f, &given);
        }
        if self.trace.get() >= depth {
            eprintln!("{}> {} ({} facts)", "  ".repeat(depth as usize), self.p.fns[f].name, st.facts.0.len());
        }
        let r = self.region(&fr, vec![(0, st)], None);
        let mut rets = r.rets;
        for (s, _) in rets.iter_mut() {
            let m = Rc::make_mut(&mut s.mem);
            for l in 0..body.locals.len() {
                m.remove(&lc(ctx, l));
            }
        }
        let n = rets.len();
        if top {
            crate::rules::on_exits(self, f, &given, &rets);
        } else if crate::ck::watched(self, f) {
            crate::ck::on_exits(self, f, &given, &rets);
        }
        let apart = rets.len() <= 24 && self.on("C13") && matches!(self.p.fns[f].krate.as_str(), "ext4_view" | "harness") && *self.root.borrow() != crate::props::RESOLVE;
        let apart = apart || rets.len() <= 64 && crate::ck::apart(self, f);
        let out = if apart { rets } else { self.join_rets(rets, ctx) };
        if self.trace.get() >= depth {
            eprintln!("{}< {} : {} -> {} exits, {:.2}s", "  ".repeat(depth as usize), self.p.fns[f].name, n, out.len(), t0.elapsed().as_secs_f64());
            if self.trace.get() >= 1000 {
                for (s, v) in &out {
                    eprintln!("{}    {} {}", "  ".repeat(depth as usize), if s.imp { "IMP" } else { "" }, v.show().chars().take(300).collect::<String>());
                }
            }
        }
        if let Ok(w) = std::env::var("VF_SHOW") {
            if self.p.fns[f].name.ends_with(&w) {
                for (s, v) in &out {
                    eprintln!("== {} {}{}", self.p.fns[f].name, if s.imp { "IMP " } else { "" }, v.show());
                    eprintln!("      ghosts {}", crate::rules::GHOSTS.iter().map(|g| s.get(*g).show()).collect::<Vec<_>>().join(" "));
                    if std::env::var("VF_MEM").is_ok() {
                        for (c, v) in s.mem.iter() {
                            eprintln!("      [{c:x}] {}", v.show().chars().take(400).collect::<String>());
                        }
                    }
                    for x in s.facts.0.iter() {
                        eprintln!("      {}", x.show());
                    }
                }
            }
        }
        if top {
            crate::rules::on_return(self, f, &given, &out);
        }
        self.stack.borrow_mut().pop();
        let mut p = self.prof.borrow_mut();
        let e = p.entry(f).or_insert((0, 0.0));
        e.0 += 1;
        e.1 += t0.elapsed().as_secs_f64();
        out
    }
    /// Closures are only called through the closure traits.
    /// Is the last argument of a call of a closure the tuple of its arguments
    /// (the call goes through a closure trait) or already the argument?
    fn tupled(&self, body: &Body, v: &V) -> bool {
        let V::Agg(a) = v else { return false };
        if a.len() != 1 {
            return false;
        }
        match body.locals.get(2).map(|l| self.ty(*l)) {
            Some(TyK::Adt { .. }) => matches!(a[0], V::Agg(_)) || !matches!(a[0], V::Int(_)),
            _ => true,
        }
    }
    fn is_closure(&self, f: usize) -> bool {
        let n = &self.p.fns[f].name;
        n.ends_with('}') && n.rfind("::{closure#").is_some_and(|i| n[i + 11..n.len() - 1].chars().all(|c| c.is_ascii_digit()))
    }
    /// Functions whose paths are told apart.
    fn paths(&self, f: usize) -> bool {
        (self.p.fns[f].name == crate::cut::READ || (self.on("C16") || self.on("C17")) && self.p.fns[f].name == crate::props::READB) && !self.prefix.get()
    }
    fn ghost_key(&self, s: &State) -> u64 {
        let mut k = vec![];
        for c in crate::rules::SPLIT.iter().copied() {
            k.push(vshape(&s.get(c), 3));
            if let V::Int(l) = s.get(c) {
                k.push(hash(&l));
            }
        }
        hash(&k)
    }
    /// Joins function exits with the same kind of result.
    fn join_rets(&self, rets: Out, ctx: u64) -> Out {
        if rets.len() <= 1 {
            return rets;
        }
        for depth in [4u32, 2, 1, 0] {
            let mut groups: Vec<(u64, Vec<(State, V)>)> = vec![];
            for (s, v) in &rets {
                let k = hash(&(vshape(v, depth.max(1)), self.ghost_key(s), if depth >= 4 { self.mem_shape(s, 3) } else { 0 }));
                match groups.iter_mut().find(|g| g.0 == k) {
                    Some(g) => g.1.push((s.clone(), v.clone())),
                    None => groups.push((k, vec![(s.clone(), v.clone())])),
                }
            }
            let cap = match depth {
                4 => 6,
                2 => 10,
                _ => 24,
            };
            if groups.len() > cap && depth > 0 {
                continue;
            }
            let mut out = vec![];
            for (k, g) in groups {
                if g.len() == 1 {
                    out.extend(g);
                    continue;
                }
                let cell = hash(&(ctx, "ret"));
                let ss: Vec<State> = g
                    .into_iter()
                    .map(|(mut s, v)| {
                        s.set(cell, v);
                        s
                    })
                    .collect();
                let mut m = self.merge(ss, hash(&(ctx, k, "ret")));
                let v = m.get(cell);
                m.del(cell);
                out.push((m, v));
            }
            return out;
        }
        rets
    }
    pub fn mem_shape(&self, s: &State, d: u32) -> u64 {
        hash(&s.mem.iter().map(|(c, v)| (*c, vshape(v, d))).collect::<Vec<_>>())
    }
    pub fn gc(&self, st: &mut State) {
        if st.facts.0.len() < 24 {
            return;
        }
        let mut live: BTreeSet<Id> = BTreeSet::new();
        let mut lc: BTreeSet<Cid> = BTreeSet::new();
        for v in st.mem.values() {
            visit(v, &mut |x| match x {
                Ok(l) => atoms_of(l, &mut live),
                Err(c) => {
                    if lc.insert(c) {
                        catoms(c, &mut live);
                    }
                }
            });
        }
        let mut bases = BTreeSet::new();
        for c in lc {
            bases_of(c, &mut bases);
        }
        let keep = |f: &Fact| -> bool {
            let mut a = BTreeSet::new();
            atoms_of(f.lin(), &mut a);
            if a.iter().any(|i| live.contains(i)) {
                return true;
            }
            a.iter().any(|i| match atom(*i) {
                Atom::Load(c, o, ..) => {
                    if matches!(cont(c), Cont::Dev) {
                        // Device facts: kept while their address is meaningful.
                        let mut s = BTreeSet::new();
                        atoms_of(&o, &mut s);
                        s.iter().all(|j| !matches!(atom(*j), Atom::Sym(..)) || live.contains(j))
                    } else {
                        bases.contains(&c)
                    }
                }
                Atom::Fun(_, v, ..) => v.iter().any(|x| matches!(x, Arg::C(c) if bases.contains(c) || matches!(cont(*c), Cont::Dev))),
                _ => false,
            })
        };
        if st.facts.0.iter().all(&keep) {
            return;
        }
        let s: BTreeSet<Fact> = st.facts.0.iter().filter(|f| keep(f)).cloned().collect();
        st.facts = Facts(Rc::new(s));
    }
    pub fn merge(&self, mut ss: Vec<State>, key: u64) -> State {
        if ss.len() == 1 {
            return ss.pop().unwrap();
        }
        for s in ss.iter_mut() {
            self.gc(s);
        }
        crate::merge::UNSIGNED.with(|u| u.set(self.unsigned()));
        let mut m = Merge::new(ss.iter().map(|s| s.facts.clone()).collect(), key);
        let (mem, _) = self.merge_mem(&ss, &mut m);
        let facts = m.merge_facts();
        State { mem: Rc::new(mem), facts, imp: ss.iter().any(|s| s.imp) }
    }
    pub fn merge_mem(&self, ss: &[State], m: &mut Merge) -> (BTreeMap<Cell, V>, ()) {
        let mut r = self.merge_mem0(ss, m);
        while m.reorder() {
            r = self.merge_mem0(ss, m);
        }
        r
    }
    fn merge_mem0(&self, ss: &[State], m: &mut Merge) -> (BTreeMap<Cell, V>, ()) {
        let mut mem = BTreeMap::new();
        // A cell some states do not have is unreachable there.
        let cells: BTreeMap<Cell, &V> = ss.iter().rev().flat_map(|s| s.mem.iter()).map(|(c, v)| (*c, v)).collect();
        for (c, v) in cells.iter() {
            let v = *v;
            let mut vs: Vec<Option<&V>> = Vec::with_capacity(ss.len());
            let mut same = true;
            for s in ss {
                let w = s.mem.get(c);
                if let Some(w) = w {
                    same &= w == v;
                }
                vs.push(w);
            }
            let touched = m.prev.is_some_and(|p| p.rel.contains_key(c));
            if same && !touched && m.sum.is_none() {
                mem.insert(*c, v.clone());
                continue;
            }
            // Marks the cell for later rounds.
            m.next.rel.insert(*c, Lin::c(0));
            let n = m.val(&vs, *c);
            mem.insert(*c, n);
        }
        (mem, ())
    }
    fn region(&self, fr: &Fr, init: Vec<(usize, State)>, scope: Option<usize>) -> Region {
        let cfg = &fr.body.cfg;
        let mut pend: BTreeMap<usize, Vec<State>> = BTreeMap::new();
        let mut out = Region { back: vec![], exits: vec![], rets: vec![] };
        let mut first = true;
        for (b, s) in init {
            pend.entry(cfg.rpo[b]).or_default().push(s);
        }
        let route = |b: usize, s: State, pend: &mut BTreeMap<usize, Vec<State>>, out: &mut Region| {
            if let Some(l) = scope {
                let lp = &cfg.loops[l];
                if b == lp.header {
                    out.back.push(s);
                    return;
                }
                if !lp.body[b] {
                    out.exits.push((b, s));
                    return;
                }
            }
            pend.entry(cfg.rpo[b]).or_default().push(s);
        };
        while let Some((pos, _)) = pend.iter().next().map(|(k, v)| (*k, v.len())) {
            let states = pend.remove(&pos).unwrap();
            let b = cfg.order[pos];
            let own_head = first && scope.is_some_and(|l| cfg.loops[l].header == b);
            first = false;
            if let (Some(l), false) = (cfg.head[b], own_head) {
                let exits = self.run_loop(fr, l, states);
                for (t, s) in exits.0 {
                    route(t, s, &mut pend, &mut out);
                }
                out.rets.extend(exits.1);
                continue;
            }
            let states = if own_head { states } else { self.join(fr, b, states) };
            for s in states {
                self.block(fr, b, s, &mut |t, s| route(t, s, &mut pend, &mut out));
                // Returns are delivered through the block's own path.
                if let Tm::Ret = fr.body.blocks[b].t {
                    // handled in block via ret buffer
                }
            }
            let mut rb = RETS.with(|r| r.borrow_mut().remove(&(fr.ctx, b)).unwrap_or_default());
            out.rets.append(&mut rb);
        }
        out
    }
    fn clear_dead(&self, fr: &Fr, b: usize, s: &mut State) {
        let live = &fr.body.cfg.live[b];
        let m = Rc::make_mut(&mut s.mem);
        for (l, lv) in live.iter().enumerate() {
            if !lv {
                m.remove(&lc(fr.ctx, l));
            }
        }
    }
    fn keyed(&self, fr: &Fr, ss: &[State], d: u32) -> Vec<u64> {
        ss.iter()
            .map(|s| {
                let mut k: Vec<(Cell, u64)> = vec![];
                let mut skip: BTreeSet<Cell> = BTreeSet::new();
                for (l, f) in fr.body.cfg.dropflag.iter().enumerate() {
                    if *f {
                        skip.insert(lc(fr.ctx, l));
                    }
                }
                if d > 0 {
                    for (c, v) in s.mem.iter() {
                        if !skip.contains(c) {
                            k.push((*c, vshape(v, if *c == lc(fr.ctx, 0) { d.max(2) } else { d })));
                        }
                    }
                }
                hash(&(k, self.ghost_key(s), s.imp))
            })
            .collect()
    }
    /// Whether no function on the stack has locals of signed types (other than
    /// the discriminants of its enumerations).
    fn unsigned(&self) -> bool {
        let mut c = self.signed.borrow_mut();
        self.stack.borrow().iter().all(|(f, ..)| {
            !*c.entry(*f).or_insert_with(|| {
                self.p.fns[*f].body.as_ref().is_some_and(|b| {
                    let tags: BTreeSet<usize> = b.blocks.iter().flat_map(|x| &x.s).filter_map(|s| match s {
                        St::Assign(p, Rv::Discr(_), _) => Some(p.local),
                        _ => None,
                    }).collect();
                    b.locals.iter().enumerate().any(|(i, t)| !tags.contains(&i) && matches!(self.ty(*t), TyK::Int { signed: true, .. }))
                })
            })
        })
    }
    fn join(&self, fr: &Fr, b: usize, mut ss: Vec<State>) -> Vec<State> {
        if ss.len() == 1 {
            return ss;
        }
        for s in ss.iter_mut() {
            self.clear_dead(fr, b, s);
            crate::props::settle(self, s);
        }
        if ss.len() <= 48 && self.paths(fr.f) {
            return ss;
        }
        if ss.len() <= 16 && self.on("C13") && fr.body.cfg.head[b].is_none() && matches!(self.p.fns[fr.f].krate.as_str(), "ext4_view" | "harness") && *self.root.borrow() != crate::props::RESOLVE {
            return ss;
        }
        if ss.len() <= 64 && fr.body.cfg.head[b].is_none() && crate::ck::apart(self, fr.f) {
            return ss;
        }
        if ss.len() <= 16 && self.on("C11") && fr.body.cfg.head[b].is_none() && self.p.fns[fr.f].name == crate::props::RESOLVE {
            return ss;
        }
        if std::env::var("VF_JOIN").is_ok_and(|w| self.p.fns[fr.f].name.ends_with(&w)) {
            eprintln!("JOIN bb{b}: {} states, {}", ss.len(), ss.iter().map(|s| s.get(lc(fr.ctx, 0)).show().chars().take(30).collect::<String>()).collect::<Vec<_>>().join(" / "));
        }
        for d in [3u32, 1, 100, 0] {
            let keys = if d == 100 {
                // Only the shape of the result.
                ss.iter().map(|s| hash(&(vshape(&s.get(lc(fr.ctx, 0)), 2), self.ghost_key(s), s.imp))).collect()
            } else {
                self.keyed(fr, &ss, d)
            };
            let distinct: BTreeSet<u64> = keys.iter().copied().collect();
            let cap = match d {
                3 => 8,
                1 => 16,
                100 => 24,
                _ => 1000,
            };
            if distinct.len() > cap {
                continue;
            }
            let mut out = vec![];
            for k in distinct {
                let g: Vec<State> = ss.iter().zip(&keys).filter(|x| *x.1 == k).map(|x| x.0.clone()).collect();
                let show = |t: &str, s: &State| {
                    if std::env::var("VF_JOIN").is_ok_and(|w| self.p.fns[fr.f].name.ends_with(&w)) && std::env::var("VF_FACTS").is_ok() {
                        eprintln!("  {t}");
                        for f in s.facts.0.iter() {
                            eprintln!("      {}", f.show());
                        }
                    }
                };
                for s in &g {
                    show(&format!("part of bb{b}"), s);
                }
                let m = self.merge(g, hash(&(fr.ctx, b, k)));
                show(&format!("merged bb{b}"), &m);
                out.push(m);
            }
            return out;
        }
        ss
    }
    fn join_entries(&self, fr: &Fr, h: usize, ss: &[State]) -> Vec<State> {
        self.join(fr, h, ss.to_vec())
    }
    fn run_loop(&self, fr: &Fr, l: usize, entries: Vec<State>) -> (Vec<(usize, State)>, Out) {
        let h = fr.body.cfg.loops[l].header;
        let mut entries = entries;
        for s in entries.iter_mut() {
            self.clear_dead(fr, h, s);
            crate::props::settle(self, s);
        }
        // The first iteration of an innermost loop is analysed on its own.
        let lp = &fr.body.cfg.loops[l];
        let inner = fr.body.cfg.loops.iter().enumerate().all(|(k, o)| k == l || !lp.body[o.header]);
        let mut peel: (Vec<(usize, State)>, Out) = (vec![], vec![]);
        if inner && self.peel.get() {
            let mut back = vec![];
            for s in self.join_entries(fr, h, &entries) {
                let r = self.region(fr, vec![(h, s.clone())], Some(l));
                peel.0.extend(r.exits.into_iter().filter(|x| !refute(&x.1.facts, &[], 1)));
                peel.1.extend(r.rets);
                for mut b in r.back {
                    self.clear_dead(fr, h, &mut b);
                    self.gc(&mut b);
                    back.push(crate::memo::freshen(&s, b, hash(&(fr.ctx, h, "peel"))));
                }
            }
            if back.is_empty() {
                return peel;
            }
            entries = back;
        }
        let mut depth = 3u32;
        'retry: loop {
            let mut eg: BTreeMap<u64, Vec<State>> = BTreeMap::new();
            for (k, s) in self.keyed(fr, &entries, depth).into_iter().zip(&entries) {
                eg.entry(k).or_default().push(s.clone());
            }
            if eg.len() > 6 && depth > 0 {
                depth -= 1;
                continue;
            }
            let mut backs: BTreeMap<u64, Vec<State>> = BTreeMap::new();
            let mut tm: BTreeMap<u64, Tmpl> = BTreeMap::new();
            let mut heads: BTreeMap<u64, State> = BTreeMap::new();
            let ck = |k: u64| hash(&(fr.ctx, h, k, depth, "cache"));
            // Start from what an earlier visit found.
            for k in eg.keys() {
                if let Some(t) = self.cache.borrow().get(&ck(*k)) {
                    tm.insert(*k, t.clone());
                }
            }
            let mut round = 0;
            let log0 = self.log.borrow().len();
            loop {
                round += 1;
                let mut stable = true;
                let keys: BTreeSet<u64> = eg.keys().chain(backs.keys()).copied().collect();
                if keys.len() > 8 && depth > 0 {
                    depth -= 1;
                    self.log.borrow_mut().truncate(log0);
                    continue 'retry;
                }
                for k in &keys {
                    let mut es: Vec<State> = eg.get(k).cloned().unwrap_or_default();
                    let mut bs: Vec<State> = backs.get(k).cloned().unwrap_or_default();
                    for s in es.iter_mut().chain(bs.iter_mut()) {
                        self.gc(s);
                    }
                    let ne = es.len();
                    let mut entry_syms: BTreeSet<Id> = BTreeSet::new();
                    for s in &entries {
                        for v in s.mem.values() {
                            visit(v, &mut |x| match x {
                                Ok(l) => atoms_of(l, &mut entry_syms),
                                Err(c) => catoms(c, &mut entry_syms),
                            });
                        }
                    }
                    let all: Vec<State> = es.into_iter().chain(bs).collect();
                    let prev = tm.get(k).cloned();
                    crate::merge::UNSIGNED.with(|u| u.set(self.unsigned()));
                    let mut m = Merge::new(all.iter().map(|s| s.facts.clone()).collect(), hash(&(fr.ctx, h, k, "loop")));
                    m.looping = true;
                    m.entries = ne.max(1);
                    m.prev = prev.as_ref();
                    m.changed = round == 1 && all.iter().map(|s| s.facts.0.len()).sum::<usize>() < 48;
                    m.entry_syms = Some(entry_syms);
                    let (mem, _) = self.merge_mem(&all, &mut m);
                    let facts = m.merge_facts();
                    let mut next = std::mem::take(&mut m.next);
                    next.facts = facts.0.iter().cloned().collect();
                    let imp = all.iter().any(|s| s.imp);
                    let st = State { mem: Rc::new(mem), facts, imp };
                    let same = heads.get(k).is_some_and(|o| o.mem == st.mem && o.facts.0 == st.facts.0 && o.imp == st.imp);
                    if !same {
                        stable = false;
                        if self.trace.get() >= 2000 && heads.contains_key(k) {
                            self.diff(&heads[k], &st);
                        }
                    }
                    heads.insert(*k, st);
                    tm.insert(*k, next);
                }
                if stable {
                    break;
                }
                if round > 14 {
                    self.note_unmodelled(&format!("loop did not stabilise in {}", self.p.fns[fr.f].name));
                    for s in heads.values_mut() {
                        s.imp = true;
                    }
                    // One more pass with the last heads (marked imprecise).
                    let mut out = vec![];
                    let mut rets = vec![];
                    self.log.borrow_mut().truncate(log0);
                    for s in heads.values() {
                        let r = self.region(fr, vec![(h, s.clone())], Some(l));
                        out.extend(r.exits);
                        rets.extend(r.rets);
                    }
                    out.extend(peel.0);
                    rets.extend(peel.1);
                    return (out, rets);
                }
                self.log.borrow_mut().truncate(log0);
                backs.clear();
                let mut exits = vec![];
                let mut rets = vec![];
                let mut nb = vec![];
                for s in heads.values() {
                    let r = self.region(fr, vec![(h, s.clone())], Some(l));
                    nb.extend(r.back);
                    exits.extend(r.exits);
                    rets.extend(r.rets);
                }
                for s in nb.iter_mut() {
                    self.clear_dead(fr, h, s);
                }
                for (k, s) in self.keyed(fr, &nb, depth).into_iter().zip(nb) {
                    backs.entry(k).or_default().push(s);
                }
                LAST.with(|x| x.borrow_mut().insert((fr.ctx, h), (exits, rets)));
            }
            if self.trace.get() >= 500 {
                eprintln!("loop {} bb{} depth {} parts {} rounds {}", self.p.fns[fr.f].name, h, depth, heads.len(), round);
            }
            for (k, t) in tm {
                self.cache.borrow_mut().insert(ck(k), t);
            }
            let (mut exits, mut rets) = LAST.with(|x| x.borrow_mut().remove(&(fr.ctx, h))).unwrap_or_default();
            exits.extend(peel.0);
            rets.extend(peel.1);
            return (exits, rets);
        }
    }
    pub fn diff(&self, a: &State, b: &State) {
        for (c, v) in a.mem.iter() {
            match b.mem.get(c) {
                Some(w) if w != v => eprintln!("   cell {:x}: {}\n      ->  {}", c & 0xffff, v.show(), w.show()),
                None => eprintln!("   cell {:x} gone", c & 0xffff),
                _ => {}
            }
        }
        for f in a.facts.0.iter() {
            if !b.facts.0.contains(f) {
                eprintln!("   - {}", f.show());
            }
        }
        for f in b.facts.0.iter() {
            if !a.facts.0.contains(f) {
                eprintln!("   + {}", f.show());
            }
        }
    }
    /// Restricts the enum at a place to one variant.
    pub fn refine(&self, st: &mut State, p: &Place, var: usize) -> bool {
        if let V::Enum(e) = self.read(st, p) {
            if e.tag.is_c().is_none() {
                let pay = match e.pay.get(&var) {
                    Some(p) => p.clone(),
                    None => Pay { vals: self.lazy_pay(st, &e, var), facts: vec![] },
                };
                for f in &pay.facts {
                    if !st.facts.assume(f) {
                        return false;
                    }
                }
                let v = V::Enum(Rc::new(En { ty: e.ty, tag: Lin::c(var as i128), pay: [(var, Pay { vals: pay.vals, facts: vec![] })].into_iter().collect(), key: e.key }));
                self.write(st, p, v);
            }
        }
        true
    }
    fn block(&self, fr: &Fr, b: usize, mut st: State, go: &mut dyn FnMut(usize, State)) {
        self.steps.set(self.steps.get() + 1);
        let blk = &fr.body.blocks[b];
        let mut discr: Option<(usize, Place)> = None;
        let ctx = hash(&(fr.ctx, b));
        if let Some(x) = self.stack.borrow_mut().last_mut() {
            x.1 = blk.loc;
            x.2 = ctx;
        }
        for (si, s) in blk.s.iter().enumerate() {
            match s {
                St::Assign(p, r, loc) => {
                    if let Some(x) = self.stack.borrow_mut().last_mut() {
                        x.1 = *loc;
                        x.2 = hash(&(ctx, si));
                    }
                    let dty = self.pl_ty(fr, p);
                    if let (Rv::Discr(q), true) = (r, p.proj.is_empty()) {
                        if let RP::M(pl) = self.place(fr, &mut st, q) {
                            discr = Some((p.local, pl));
                        }
                    }
                    let v = self.rvalue(fr, &mut st, r, dty);
                    let rp = self.place(fr, &mut st, p);
                    self.write_rp(&mut st, &rp, v);
                }
                St::SetDiscr(p, k) => {
                    let rp = self.place(fr, &mut st, p);
                    if let RP::M(q) = rp {
                        let v = self.read(&mut st, &q);
                        if let V::Enum(e) = v {
                            let mut e2 = (*e).clone();
                            e2.tag = Lin::c(*k as i128);
                            self.write(&mut st, &q, V::Enum(Rc::new(e2)));
                        }
                    }
                }
                St::Dead(l) => st.del(lc(fr.ctx, *l)),
                St::Live(l) => {
                    st.del(lc(fr.ctx, *l));
                }
                St::Assume(o) => {
                    let v = self.op(fr, &mut st, o);
                    let c = self.bool_(&v, 0);
                    if !st.assume(&c) {
                        return;
                    }
                }
                St::Nop => {}
                St::Calm => st.set(G_IO, V::int(0)),
            }
        }
        if let Some(x) = self.stack.borrow_mut().last_mut() {
            x.1 = blk.loc;
            x.2 = ctx;
        }
        match &blk.t {
            Tm::Goto(t) => go(*t, st),
            Tm::Ret => {
                let v = st.get(lc(fr.ctx, 0));
                RETS.with(|r| r.borrow_mut().entry((fr.ctx, b)).or_default().push((st, v)));
            }
            Tm::Unreachable | Tm::Stop => {}
            Tm::Drop(p, t) => {
                let rp = self.place(fr, &mut st, p);
                let v = self.read_rp(&mut st, &rp);
                self.drop_v(&mut st, &v);
                if let RP::M(q) = &rp {
                    self.write(&mut st, q, V::Uninit);
                }
                go(*t, st);
            }
            Tm::Switch(o, arms, other) => {
                if let Op::Copy(p) | Op::Move(p) = o {
                    if p.proj.is_empty() && fr.body.cfg.dropflag[p.local] {
                        go(*other, st);
                        return;
                    }
                }
                let src = match (o, &discr) {
                    (Op::Copy(p) | Op::Move(p), Some((l, q))) if p.proj.is_empty() && p.local == *l => Some(q.clone()),
                    _ => None,
                };
                let ty = self.op_ty(fr, o);
                let v = self.op(fr, &mut st, o);
                if let (V::Bool(c), true) = (&v, matches!(self.ty(ty), TyK::Bool)) {
                    // arms: 0 -> false
                    for (k, t) in arms {
                        let c2 = if *k == 0 { c.not() } else { c.clone() };
                        let mut s = st.clone();
                        if s.assume(&c2) {
                            go(*t, s);
                        }
                    }
                    let c2 = if arms.iter().any(|a| a.0 == 0) { c.clone() } else { c.not() };
                    if st.assume(&c2) {
                        go(*other, st);
                    }
                    return;
                }
                let l = self.int(&st, &v, hash(&(ctx, "sw")));
                let (bits, signed) = self.bits(ty);
                let var_of = |k: i128| -> Option<usize> {
                    let q = src.as_ref()?;
                    let _ = q;
                    Some(k as usize)
                };
                let _ = var_of;
                let mut covered = vec![];
                for (k, t) in arms {
                    let kk = if signed && bits < 127 && *k >= (1i128 << (bits - 1)) { *k - (1i128 << bits) } else { *k };
                    covered.push(kk);
                    let mut s = st.clone();
                    if !s.assume(&Cond::fact(Fact::Eq(l.addk(-kk)))) {
                        continue;
                    }
                    if let Some(q) = &src {
                        if let V::Enum(e) = self.read(&mut s, q) {
                            if let TyK::Adt { vars, .. } = self.ty(e.ty) {
                                if let Some(var) = vars.iter().position(|x| x.discr == kk) {
                                    if !self.refine(&mut s, q, var) {
                                        continue;
                                    }
                                }
                            }
                        }
                    }
                    go(*t, s);
                }
                for k in &covered {
                    if !st.assume(&Cond::fact(Fact::Ne(l.addk(-*k)))) {
                        return;
                    }
                }
                if let Some(q) = &src {
                    if let V::Enum(e) = self.read(&mut st, q) {
                        if let TyK::Adt { vars, .. } = self.ty(e.ty) {
                            let rest: Vec<usize> = (0..vars.len()).filter(|i| !covered.contains(&vars[*i].discr)).collect();
                            if rest.is_empty() {
                                return;
                            }
                            if rest.len() == 1 && !self.refine(&mut st, q, rest[0]) {
                                return;
                            }
                        }
                    }
                }
                if matches!(fr.body.blocks[*other].t, Tm::Unreachable) {
                    return;
                }
                go(*other, st);
            }
            Tm::Assert { cond, expected, msg, target } => {
                let v = self.op(fr, &mut st, cond);
                let c = self.bool_(&v, ctx);
                let c = if *expected { c } else { c.not() };
                let what = match msg {
                    Msg::Bounds(l, i) => {
                        let (a, b) = (self.op(fr, &mut st, l), self.op(fr, &mut st, i));
                        format!("index out of range: {} of {}", b.show(), a.show())
                    }
                    Msg::Overflow(o, a, b) => {
                        let (a, b) = (self.op(fr, &mut st, a), self.op(fr, &mut st, b));
                        format!("arithmetic overflow: {} {} {}", a.show(), o, b.show())
                    }
                    Msg::Other(s) => s.clone(),
                };
                let kind = match msg {
                    Msg::Bounds(..) => "index",
                    Msg::Overflow(o, ..) => o.as_str(),
                    Msg::Other(s) => s.as_str(),
                };
                crate::rules::panic_ob(self, &st, &c, kind, &what);
                if st.assume(&c) {
                    go(*target, st);
                }
            }
            Tm::Call { f, args, dst, target } => {
                let dty = self.pl_ty(fr, dst);
                let a: Vec<V> = args.iter().map(|o| self.op(fr, &mut st, o)).collect();
                let mut a = a;
                if let Callee::Fn(g) = f {
                    // A closure called through the traits: the arguments come as a tuple.
                    if let (Some(b), [_, last]) = (&self.p.fns[*g].body, &args[..]) {
                        if self.p.fns[*g].kind == "closure" || self.p.fns[*g].name.contains("{closure") {
                            let t = self.op_ty(fr, last);
                            if b.spread < 0 && t != b.locals.get(2).copied().unwrap_or(t) {
                                if let (TyK::Tuple(ts), V::Agg(x)) = (self.ty(t), a[1].clone()) {
                                    if ts.len() == b.argc - 1 && x.len() == ts.len() {
                                        a.truncate(1);
                                        a.extend(x.iter().cloned());
                                    }
                                }
                            }
                        }
                    }
                }
                let outs = match f {
                    Callee::Fn(g) => self.dispatch(*g, a, st, ctx, dty, *target < 0),
                    Callee::Op(o) => {
                        let v = self.op(fr, &mut st, o);
                        match v {
                            V::Fn(g) => self.dispatch(g, a, st, ctx, dty, *target < 0),
                            _ => {
                                self.note_unmodelled("indirect call");
                                st.imp = true;
                                let v = self.sym_d(&mut st, dty, hash(&(ctx, "ind")), 2, true);
                                vec![(st, v)]
                            }
                        }
                    }
                    Callee::Unres(n) => {
                        self.note_unmodelled(&format!("unresolved {n}"));
                        st.imp = true;
                        let v = self.sym_d(&mut st, dty, hash(&(ctx, "unres")), 2, true);
                        vec![(st, v)]
                    }
                };
                if *target < 0 {
                    return;
                }
                for (mut s, v) in outs {
                    let rp = self.place(fr, &mut s, dst);
                    self.write_rp(&mut s, &rp, v);
                    go(*target as usize, s);
                }
            }
        }
    }
    fn dispatch(&self, g: usize, a: Vec<V>, mut st: State, ctx: u64, dty: usize, diverges: bool) -> Out {
        if diverges {
            let fun = &self.p.fns[g];
            if fun.krate != "ext4_view" && fun.krate != "harness" {
                crate::rules::panic_call(self, &mut st, g, &a);
                return vec![];
            }
        }
        self.call(g, a, st, ctx, dty)
    }
    /// Releases what a dropped value holds.
    pub fn drop_v(&self, st: &mut State, v: &V) {
        match v {
            V::Guard(p) => {
                if let V::Cell { v, .. } = self.read(st, p) {
                    self.write(st, p, V::Cell { v, borrowed: Cond::F });
                }
            }
            V::Agg(a) => {
                for x in a.iter() {
                    self.drop_v(st, x);
                }
            }
            V::Enum(e) => {
                for (k, p) in &e.pay {
                    if e.tag.is_c().is_none_or(|t| t == *k as i128) {
                        for x in &p.vals {
                            self.drop_v(st, x);
                        }
                    }
                }
            }
            V::Boxed(b) => self.drop_v(st, b),
            _ => {}
        }
    }
}
fn sub_one(l: &Lin) -> Lin {
    // 1 if l is non-zero, else 0 (l >= 0).
    min(l, &Lin::c(1))
}
pub fn patch_depth(c: Cid) -> u32 {
    let mut n = 0;
    let mut c = c;
    while let Cont::Patch { base, .. } = cont(c) {
        n += 1;
        c = base;
    }
    n
}
thread_local! {
    static RETS: RefCell<HashMap<(u64, usize), Out>> = RefCell::new(HashMap::new());
    static LAST: RefCell<HashMap<(u64, usize), (Vec<(usize, State)>, Out)>> = RefCell::new(HashMap::new());
}
/// A content with everything it is patched together from.
pub fn bases_of(c: Cid, out: &mut BTreeSet<Cid>) {
    if out.insert(c) {
        if let Cont::Patch { base: b, src, .. } = cont(c) {
            bases_of(b, out);
            bases_of(src, out);
        }
    }
}

/// Whether code given the value can change something: through a reference in
/// it, or (if it is only shared) through a cell.
fn reaches(v: &V, shared: bool) -> bool {
    match v {
        V::Ref(_) | V::MSlice(..) => !shared,
        V::Shared(_) | V::Cell { .. } | V::Guard(_) => true,
        V::Agg(a) => a.iter().any(|x| reaches(x, shared)),
        V::Boxed(b) => reaches(b, shared),
        V::Enum(e) => e.pay.values().any(|p| p.vals.iter().any(|x| reaches(x, shared))),
        V::Seq(s) => s.known.iter().any(|x| reaches(&x.1, shared)) || s.rest.iter().any(|x| reaches(&x.v, shared)),
        V::Top(_, _, imp) => *imp && !shared,
        _ => false,
    }
}
