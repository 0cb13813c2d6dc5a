//! Function summaries: a function is analysed in a state reduced to what it
//! can reach; that input is generalised (like a loop head) over the calls seen
//! so far, and a call covered by it reuses the result, instantiated with the
//! caller's values.
use crate::exec::*;
use crate::merge::*;
use crate::prog::*;
use crate::solve::*;
use crate::state::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub struct Entry {
    /// The generalised input, with the arguments in cells of their own.
    st: State,
    tm: Tmpl,
    out: Rc<Out>,
    log: Rc<Vec<Ob>>,
    busy: bool,
    n: usize,
}

fn cells_of(v: &V, out: &mut Vec<Cell>) {
    match v {
        V::Ref(p) | V::Guard(p) | V::MSlice(p, ..) => out.push(p.cell),
        V::Shared(c) => out.push(*c),
        V::Agg(a) => a.iter().for_each(|x| cells_of(x, out)),
        V::Enum(e) => e.pay.values().for_each(|p| p.vals.iter().for_each(|x| cells_of(x, out))),
        V::Boxed(b) => cells_of(b, out),
        V::Cell { v, .. } => cells_of(v, out),
        V::Seq(s) => {
            s.known.iter().for_each(|(_, x)| cells_of(x, out));
            s.rest.iter().for_each(|a| cells_of(&a.v, out));
        }
        V::Map(m) => m.rest.iter().for_each(|a| cells_of(&a.v, out)),
        _ => {}
    }
}
fn ren(p: &Rc<Place>, f: &dyn Fn(&Place) -> Option<Place>) -> Rc<Place> {
    match f(p) {
        Some(q) => Rc::new(q),
        None => p.clone(),
    }
}
/// Rewrites places.
fn map_cells(v: &V, f: &dyn Fn(&Place) -> Option<Place>) -> V {
    let alts = |r: &Vec<Alt>| -> Vec<Alt> { r.iter().map(|a| Alt { v: map_cells(&a.v, f), facts: a.facts.clone(), bound: a.bound.clone() }).collect() };
    match v {
        V::Ref(p) => V::Ref(ren(p, f)),
        V::Guard(p) => V::Guard(ren(p, f)),
        V::MSlice(p, a, b) => V::MSlice(ren(p, f), a.clone(), b.clone()),
        V::Shared(c) => V::Shared(f(&Place::cell(*c)).map_or(*c, |p| p.cell)),
        V::Agg(a) => V::Agg(Rc::new(a.iter().map(|x| map_cells(x, f)).collect())),
        V::Enum(e) => V::Enum(Rc::new(En {
            ty: e.ty,
            tag: e.tag.clone(),
            key: e.key,
            pay: e.pay.iter().map(|(k, p)| (*k, Pay { vals: p.vals.iter().map(|x| map_cells(x, f)).collect(), facts: p.facts.clone() })).collect(),
        })),
        V::Boxed(b) => V::Boxed(Rc::new(map_cells(b, f))),
        V::Cell { v, borrowed } => V::Cell { v: Rc::new(map_cells(v, f)), borrowed: borrowed.clone() },
        V::Seq(s) => V::Seq(Rc::new(SeqV { len: s.len.clone(), known: s.known.iter().map(|(i, x)| (i.clone(), map_cells(x, f))).collect(), rest: alts(&s.rest) })),
        V::Map(m) => V::Map(Rc::new(MapV { key: m.key, rest: alts(&m.rest) })),
        _ => v.clone(),
    }
}
/// Symbols bound inside sequence and map alternatives.
fn bound_of(v: &V, out: &mut HashSet<Id>) {
    match v {
        V::Agg(a) => a.iter().for_each(|x| bound_of(x, out)),
        V::Enum(e) => e.pay.values().for_each(|p| p.vals.iter().for_each(|x| bound_of(x, out))),
        V::Boxed(b) => bound_of(b, out),
        V::Cell { v, .. } => bound_of(v, out),
        V::Seq(s) => {
            s.known.iter().for_each(|(_, x)| bound_of(x, out));
            for a in &s.rest {
                out.extend(a.bound.iter().copied());
                bound_of(&a.v, out);
            }
        }
        V::Map(m) => {
            for a in &m.rest {
                out.extend(a.bound.iter().copied());
                bound_of(&a.v, out);
            }
        }
        _ => {}
    }
}
/// Collects, in order of appearance, symbols and unknown contents.
#[derive(Default)]
struct Names {
    syms: Vec<Id>,
    conts: Vec<Cid>,
    seen: HashSet<Id>,
    cseen: HashSet<Cid>,
}
impl Names {
    fn lin(&mut self, l: &Lin) {
        for (i, _) in &l.t {
            self.atom(*i);
        }
    }
    fn atom(&mut self, i: Id) {
        if !self.seen.insert(i) {
            return;
        }
        match atom(i) {
            Atom::Sym(..) => self.syms.push(i),
            Atom::Load(c, o, ..) => {
                self.cont(c);
                self.lin(&o);
            }
            Atom::Div(l, _) | Atom::Bit(l, _) | Atom::Pow2(l) => self.lin(&l),
            Atom::DivL(a, b) | Atom::Bits(_, a, b, _) | Atom::Min(a, b) => {
                self.lin(&a);
                self.lin(&b);
            }
            Atom::Mul(v) => v.iter().for_each(|j| self.atom(*j)),
            Atom::Fun(_, v, ..) => {
                for x in v {
                    match x {
                        Arg::L(l) => self.lin(&l),
                        Arg::C(c) => self.cont(c),
                    }
                }
            }
        }
    }
    fn cont(&mut self, c: Cid) {
        if !self.cseen.insert(c) {
            return;
        }
        match cont(c) {
            Cont::Fresh(..) => self.conts.push(c),
            Cont::Patch { base, off, len, src, soff } => {
                self.cont(base);
                self.cont(src);
                self.lin(&off);
                self.lin(&len);
                self.lin(&soff);
            }
            Cont::Int(l, ..) | Cont::Fill(l) => self.lin(&l),
            _ => {}
        }
    }
    fn val(&mut self, v: &V) {
        visit(v, &mut |x| match x {
            Ok(l) => self.lin(l),
            Err(c) => self.cont(c),
        });
    }
}

/// Renames what a state has that an earlier one had not.
pub fn freshen(old: &State, s: State, key: u64) -> State {
    fn names(s: &State) -> Names {
        let mut n = Names::default();
        for v in s.mem.values() {
            n.val(v);
        }
        for f in s.facts.0.iter() {
            n.lin(f.lin());
        }
        n
    }
    let (o, n) = (names(old), names(&s));
    let mut bound = HashSet::new();
    for v in s.mem.values() {
        bound_of(v, &mut bound);
    }
    let mut m = HashMap::new();
    for i in n.syms {
        if o.seen.contains(&i) || bound.contains(&i) {
            continue;
        }
        if let Atom::Sym(k, lo, hi, imp) = atom(i) {
            m.insert(i, Lin::a(mk(Atom::Sym(hash(&(key, k)), lo, hi, imp))));
        }
    }
    let (id, _) = idx_sym().single().unwrap();
    m.remove(&id);
    let mut sub = Subst::new(m);
    for c in n.conts {
        if o.cseen.contains(&c) {
            continue;
        }
        if let Cont::Fresh(k, imp) = cont(c) {
            sub.cm.insert(c, (mkc(Cont::Fresh(hash(&(key, k)), imp)), Lin::c(0)));
        }
    }
    if sub.is_empty() {
        return s;
    }
    let mut facts = Facts::default();
    for f in s.facts.0.iter() {
        facts.add_raw(map_fact(f, &mut sub));
    }
    let mem = s.mem.iter().map(|(c, v)| (*c, map_v(v, &mut sub))).collect();
    State { mem: Rc::new(mem), facts, imp: s.imp }
}
pub fn syms_of(v: &V) -> Vec<Id> {
    let mut n = Names::default();
    n.val(v);
    n.syms
}
pub fn worth(e: &Eng, f: usize) -> bool {
    if !e.sums.get() {
        return false;
    }
    let fun = &e.p.fns[f];
    fun.krate == "ext4_view" && fun.body.is_some() && e.weight(f) >= e.heavy.get()
}

impl<'a> Eng<'a> {
    /// A static estimate of the work of analysing a function inline.
    pub fn weight(&self, f: usize) -> u64 {
        if let Some(w) = self.weights.borrow().get(&f) {
            return *w;
        }
        let Some(body) = &self.p.fns[f].body else { return 1 };
        if crate::models::find(self, f).is_some() {
            self.weights.borrow_mut().insert(f, 1);
            return 1;
        }
        self.weights.borrow_mut().insert(f, 0);
        let mut w = 0u64;
        for (i, b) in body.blocks.iter().enumerate() {
            if body.cfg.rpo[i] == usize::MAX {
                continue;
            }
            let mut x = 1;
            if let Tm::Call { f: Callee::Fn(g), .. } = &b.t {
                x += self.weight(*g);
            }
            let d = body.cfg.loops.iter().filter(|l| l.body[i]).count() as u32;
            w = w.saturating_add(x.saturating_mul(4u64.pow(d.min(6))));
        }
        self.weights.borrow_mut().insert(f, w);
        w
    }
}

/// Places in a value that lie strictly inside a cell.
fn inner_places(v: &V, out: &mut Vec<Place>) {
    let mut see = |p: &Rc<Place>| {
        if !p.proj.is_empty() {
            out.push((**p).clone())
        }
    };
    match v {
        V::Ref(p) | V::Guard(p) | V::MSlice(p, ..) => see(p),
        V::Agg(a) => a.iter().for_each(|x| inner_places(x, out)),
        V::Enum(e) => e.pay.values().for_each(|p| p.vals.iter().for_each(|x| inner_places(x, out))),
        V::Boxed(b) => inner_places(b, out),
        V::Cell { v, .. } => inner_places(v, out),
        _ => {}
    }
}
fn reach(st: &State, args: &[V]) -> Vec<Cell> {
    let mut order: Vec<Cell> = vec![];
    let mut seen: HashSet<Cell> = HashSet::new();
    let mut work: Vec<Cell> = vec![];
    for a in args {
        cells_of(a, &mut work);
    }
    work.reverse();
    while let Some(c) = work.pop() {
        if !seen.insert(c) {
            continue;
        }
        order.push(c);
        if let Some(v) = st.mem.get(&c) {
            let mut w = vec![];
            cells_of(v, &mut w);
            w.reverse();
            work.extend(w);
        }
    }
    order
}
fn acell(i: usize) -> Cell {
    hash(&("sumarg", i))
}
fn fact_sel(mem: &BTreeMap<Cell, V>, facts: &Facts) -> BTreeSet<Fact> {
    let mut nm = Names::default();
    for v in mem.values() {
        nm.val(v);
    }
    let all = nm.seen;
    let conts = nm.cseen;
    let mut out = BTreeSet::new();
    for x in facts.0.iter() {
        let l = x.lin();
        // Every top-level term mentions only what the callee can see.
        let ok = l.t.iter().all(|(i, _)| {
            all.contains(i) || {
                let mut deep = Names::default();
                deep.atom(*i);
                deep.syms.iter().all(|s| all.contains(s)) && deep.conts.iter().all(|c| conts.contains(c)) && (!deep.syms.is_empty() || !deep.conts.is_empty() || matches!(atom(*i), Atom::Load(..) | Atom::Bit(..) | Atom::Div(..) | Atom::Fun(..) | Atom::Bits(..)))
            }
        });
        if ok {
            out.insert(x.clone());
        }
    }
    out
}

pub fn call(e: &Eng, f: usize, body: &Body, args: Vec<V>, mut st: State, ctx: u64) -> Out {
    // Objects inside other objects get cells of their own for the call.
    let mut inner = vec![];
    for a in &args {
        inner_places(a, &mut inner);
    }
    inner.sort();
    inner.dedup();
    let mut roots: Vec<(Place, Cell)> = vec![];
    let mut cargs = args;
    if !inner.is_empty() {
        let direct: BTreeSet<Cell> = {
            let mut w = vec![];
            for a in &cargs {
                whole_cells(a, &mut w);
            }
            w.into_iter().collect()
        };
        for p in &inner {
            if direct.contains(&p.cell) || inner.iter().any(|q| q != p && q.cell == p.cell && (q.proj.starts_with(&p.proj) || p.proj.starts_with(&q.proj))) {
                continue;
            }
            if p.proj.iter().any(|x| matches!(x, P::Idx(_))) && inner.iter().any(|q| q != p && q.cell == p.cell) {
                continue;
            }
            roots.push((p.clone(), hash(&("inner", p))));
        }
        // Not if the containing cell can be reached some other way.
        let f0 = |p: &Place| roots.iter().find(|r| r.0 == *p).map(|r| Place::cell(r.1));
        let tmp: Vec<V> = cargs.iter().map(|a| map_cells(a, &f0)).collect();
        let mut s2 = st.clone();
        for (p, c) in &roots {
            let v = e.read(&mut s2, p);
            s2.set(*c, v);
        }
        let r: HashSet<Cell> = reach(&s2, &tmp).into_iter().collect();
        roots.retain(|(p, _)| !r.contains(&p.cell));
        let f0 = |p: &Place| roots.iter().find(|r| r.0 == *p).map(|r| Place::cell(r.1));
        cargs = cargs.iter().map(|a| map_cells(a, &f0)).collect();
        for (p, c) in &roots {
            let v = e.read(&mut st, p);
            e.write(&mut st, p, v.clone());
            st.set(*c, v);
        }
    }
    let order = reach(&st, &cargs);
    let consts = e.consts.borrow().clone();
    let heap = e.heap.borrow().clone();
    let fixed = |c: Cell| consts.contains(&c) || heap.contains(&c) || crate::rules::ghost(c);
    let mut fwd: HashMap<Cell, Cell> = HashMap::new();
    let mut bwd: HashMap<Cell, Place> = HashMap::new();
    let mut k = 0usize;
    for c in order.iter() {
        if fixed(*c) {
            continue;
        }
        let n = hash(&("cc", k));
        k += 1;
        fwd.insert(*c, n);
        match roots.iter().find(|r| r.1 == *c) {
            Some((p, _)) => bwd.insert(n, p.clone()),
            None => bwd.insert(n, Place::cell(*c)),
        };
        fwd.insert(hash(&(*c, "cl")), hash(&(n, "cl")));
        bwd.insert(hash(&(n, "cl")), Place::cell(hash(&(*c, "cl"))));
    }
    let f1 = |p: &Place| fwd.get(&p.cell).map(|c| Place { cell: *c, proj: p.proj.clone() });
    let cell1 = |c: Cell| fwd.get(&c).copied().unwrap_or(c);
    let mut mem: BTreeMap<Cell, V> = BTreeMap::new();
    for c in &order {
        for c in [*c, hash(&(*c, "cl"))] {
            if let Some(v) = st.mem.get(&c) {
                mem.insert(cell1(c), map_cells(v, &f1));
            }
        }
    }
    for c in crate::rules::GHOSTS {
        if let Some(v) = st.mem.get(c) {
            mem.insert(*c, v.clone());
        }
    }
    let nargs = cargs.len();
    for (i, a) in cargs.iter().enumerate() {
        mem.insert(acell(i), map_cells(a, &f1));
    }
    let facts = Facts(Rc::new(fact_sel(&mem, &st.facts)));
    let c = State { mem: Rc::new(mem), facts, imp: st.imp };
    // Which summary.
    let shape = |d: u32| hash(&(f, d, c.imp, c.mem.iter().filter(|(k, _)| !fixed(**k)).map(|(k, v)| (*k, if d == 0 { 0 } else { vshape(v, d) })).collect::<Vec<_>>(), crate::rules::GHOSTS.iter().map(|g| c.mem.get(g).map(|v| v.show())).collect::<Vec<_>>()));
    let mut key = 0;
    for d in [2u32, 1, 0] {
        key = shape(d);
        let mut parts = e.parts.borrow_mut();
        let p = parts.entry((f, d)).or_default();
        if p.contains(&key) || p.len() < if d == 2 { 6 } else { 12 } {
            p.insert(key);
            break;
        }
    }
    let skey = hash(&(key, "sum"));
    let mut ident = false;
    let mut sigma: Option<Subst> = None;
    let mut run: Option<(State, Tmpl, usize)> = None;
    {
        let memo = e.memo.borrow();
        match memo.get(&key) {
            None => {
        crate::merge::UNSIGNED.with(|u| u.set(false));
                let mut g = Merge::new(vec![c.facts.clone()], skey);
                g.looping = true;
                g.entries = 1;
                g.sum = Some(e.globals.borrow().clone());
                g.entry_syms = Some(e.globals.borrow().iter().copied().collect());
                let mem = e.merge_mem(std::slice::from_ref(&c), &mut g).0;
                let facts = g.merge_facts();
                let mut next = std::mem::take(&mut g.next);
                next.facts = facts.0.iter().cloned().collect();
                sigma = Some(g.sigma(0));
                run = Some((State { mem: Rc::new(mem), facts, imp: c.imp }, next, 0));
            }
            Some(m) if m.busy || m.n > 20 => {
                let mut s = st;
                let cells: Vec<V> = cargs;
                for (p, c) in &roots {
                    let _ = (p, c);
                }
                drop(memo);
                // Recursive, or not settling: no summary.
                let out = e.exec_fn(f, body, cells, std::mem::replace(&mut s, State::new()), ctx);
                return out
                    .into_iter()
                    .map(|(mut s, v)| {
                        for (p, c) in &roots {
                            let w = s.get(*c);
                            e.write(&mut s, p, w);
                            s.del(*c);
                        }
                        let g = |q: &Place| roots.iter().find(|r| r.1 == q.cell).map(|r| Place { cell: r.0.cell, proj: r.0.proj.iter().chain(&q.proj).cloned().collect() });
                        (s, map_cells(&v, &g))
                    })
                    .collect();
            }
            Some(m) => {
                if m.st.mem == c.mem && m.st.facts.0.iter().all(|x| c.facts.0.contains(x)) {
                    ident = true;
                } else {
                    let all = [m.st.clone(), c.clone()];
        crate::merge::UNSIGNED.with(|u| u.set(false));
                    let mut g = Merge::new(all.iter().map(|s| s.facts.clone()).collect(), skey);
                    g.looping = true;
                    g.entries = 1;
                    g.prev = Some(&m.tm);
                    g.sum = Some(e.globals.borrow().clone());
                    g.entry_syms = Some(e.globals.borrow().iter().copied().collect());
                    let mem = e.merge_mem(&all, &mut g).0;
                    let facts = g.merge_facts();
                    let mut next = std::mem::take(&mut g.next);
                    next.facts = facts.0.iter().cloned().collect();
                    let ns = State { mem: Rc::new(mem), facts, imp: c.imp };
                    sigma = Some(g.sigma(1));
                    if ns.mem != m.st.mem || m.st.facts.0.iter().any(|x| !ns.facts.0.contains(x)) {
                        if e.trace.get() == 78 {
                            eprintln!("WIDEN {} {}", e.p.fns[f].name, m.n);
                            e.diff(&m.st, &ns);
                        }
                        run = Some((ns, next, m.n + 1));
                    }
                }
            }
        }
    }
    let fresh = run.is_some();
    if let Some((s, tm, n)) = run {
        e.memo_n.set((e.memo_n.get().0, e.memo_n.get().1 + 1));
        e.memo.borrow_mut().insert(key, Entry { st: s.clone(), tm, out: Rc::new(vec![]), log: Rc::new(vec![]), busy: true, n });
        let mut cst = s.clone();
        let a: Vec<V> = (0..nargs)
            .map(|i| {
                let v = cst.get(acell(i));
                cst.del(acell(i));
                v
            })
            .collect();
        let n0 = e.log.borrow().len();
        let out = e.exec_fn(f, body, a, cst, skey);
        let mut seen = HashSet::new();
        let log: Vec<Ob> = e.log.borrow()[n0..].iter().filter(|o| seen.insert((o.rule, o.key.clone(), o.ok, o.imp))).cloned().collect();
        e.log.borrow_mut().truncate(n0);
        let mut memo = e.memo.borrow_mut();
        let m = memo.get_mut(&key).unwrap();
        m.out = Rc::new(out);
        m.log = Rc::new(log);
        m.busy = false;
    } else {
        e.memo_n.set((e.memo_n.get().0 + 1, e.memo_n.get().1));
    }
    let _ = fresh;
    let (mout, ist, mlog) = {
        let memo = e.memo.borrow();
        let m = memo.get(&key).unwrap();
        (m.out.clone(), m.st.clone(), m.log.clone())
    };
    e.log.borrow_mut().extend(mlog.iter().cloned());
    // Names of the input that mean the same to the caller.
    let mut inm = Names::default();
    for v in ist.mem.values() {
        inm.val(v);
    }
    for y in ist.facts.0.iter() {
        inm.lin(y.lin());
    }
    let keep: HashSet<Id> = inm.syms.iter().copied().collect();
    let ckeep: HashSet<Cid> = inm.conts.iter().copied().collect();
    let (sm, scm) = match sigma {
        Some(s) => (s.m.clone(), s.cm.clone()),
        None => Default::default(),
    };
    let own: HashSet<Id> = if ident { HashSet::new() } else { e.memo.borrow()[&key].tm.own.values().map(|x| x.0).collect() };
    let f2 = |p: &Place| -> Option<Place> {
        match bwd.get(&p.cell) {
            Some(q) => Some(Place { cell: q.cell, proj: q.proj.iter().chain(&p.proj).cloned().collect() }),
            None if fixed(p.cell) => None,
            None => Some(Place { cell: hash(&(ctx, p.cell)), proj: p.proj.clone() }),
        }
    };
    let mut out = vec![];
    for (x, v) in mout.iter() {
        let mut nm2 = Names::default();
        let mut b2: HashSet<Id> = HashSet::new();
        nm2.val(v);
        bound_of(v, &mut b2);
        for w in x.mem.values() {
            nm2.val(w);
            bound_of(w, &mut b2);
        }
        for y in x.facts.0.iter() {
            nm2.lin(y.lin());
        }
        let mut map = sm.clone();
        let mut cmap = scm.clone();
        for i in &nm2.syms {
            if map.contains_key(i) || b2.contains(i) || (keep.contains(i) && !own.contains(i)) {
                continue;
            }
            if let Atom::Sym(k, lo, hi, imp) = atom(*i) {
                if k == IDX {
                    continue;
                }
                map.insert(*i, Lin::a(mk(Atom::Sym(hash(&(ctx, k)), lo, hi, imp))));
            }
        }
        for c in &nm2.conts {
            if cmap.contains_key(c) || ckeep.contains(c) {
                continue;
            }
            if let Cont::Fresh(k, imp) = cont(*c) {
                cmap.insert(*c, (mkc(Cont::Fresh(hash(&(ctx, k)), imp)), Lin::c(0)));
            }
        }
        let mut s = Subst::new(map);
        s.cm = cmap;
        let mut r = st.clone();
        r.imp = x.imp;
        for (c, _) in ist.mem.iter() {
            if !x.mem.contains_key(c) {
                if let Some(q) = bwd.get(c) {
                    if q.proj.is_empty() {
                        r.del(q.cell);
                    }
                }
            }
        }
        for (c, w) in x.mem.iter() {
            if ist.mem.get(c) == Some(w) {
                continue;
            }
            let w = map_cells(&map_v(w, &mut s), &f2);
            match bwd.get(c) {
                Some(q) if !q.proj.is_empty() => e.write(&mut r, q, w),
                Some(q) => r.set(q.cell, w),
                None if fixed(*c) => r.set(*c, w),
                None => r.set(hash(&(ctx, *c)), w),
            }
        }
        for (_, c) in &roots {
            r.del(*c);
        }
        let mut ok = true;
        for y in x.facts.0.iter() {
            let z = map_fact(y, &mut s);
            if !r.facts.add(z) {
                ok = false;
                break;
            }
        }
        if ok {
            let v = map_cells(&map_v(v, &mut s), &f2);
            out.push((r, v));
        }
    }
    out
}
/// Cells referred to as a whole.
fn whole_cells(v: &V, out: &mut Vec<Cell>) {
    match v {
        V::Ref(p) | V::Guard(p) | V::MSlice(p, ..) => {
            if p.proj.is_empty() {
                out.push(p.cell)
            }
        }
        V::Shared(c) => out.push(*c),
        V::Agg(a) => a.iter().for_each(|x| whole_cells(x, out)),
        V::Enum(e) => e.pay.values().for_each(|p| p.vals.iter().for_each(|x| whole_cells(x, out))),
        V::Boxed(b) => whole_cells(b, out),
        V::Cell { v, .. } => whole_cells(v, out),
        _ => {}
    }
}
