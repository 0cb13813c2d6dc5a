//! The most general client: load, then any operations in any order on the
//! loaded filesystem. What the operations leave behind in the shared
//! filesystem object is generalised to an invariant the same way a loop is.
use crate::exec::*;
use crate::merge::*;
use crate::prog::*;
use crate::solve::*;
use crate::state::*;
use crate::term::*;
use std::collections::BTreeSet;
use std::rc::Rc;

pub const FS: Cell = 0x20;

pub struct Fix {
    pub st: State,
    tm: Tmpl,
    entry: State,
    backs: Vec<State>,
    key: u64,
}
impl Fix {
    pub fn new(entry: State, key: u64) -> Fix {
        Fix { st: entry.clone(), tm: Tmpl::default(), entry, backs: vec![], key }
    }
    /// Adds states reached from the current one; false if nothing changed.
    pub fn widen(&mut self, e: &Eng, more: Vec<State>) -> bool {
        let cells: BTreeSet<Cell> = self.entry.mem.keys().copied().collect();
        for mut s in more {
            Rc::make_mut(&mut s.mem).retain(|c, _| cells.contains(c));
            e.gc(&mut s);
            if !self.backs.iter().any(|b| b.mem == s.mem && b.facts.0 == s.facts.0) {
                self.backs.push(s);
            }
        }
        let mut syms: BTreeSet<Id> = BTreeSet::new();
        for v in self.entry.mem.values() {
            visit(v, &mut |x| match x {
                Ok(l) => atoms_of(l, &mut syms),
                Err(c) => catoms(c, &mut syms),
            });
        }
        let mut all = vec![self.entry.clone()];
        all.extend(self.backs.iter().cloned());
        crate::merge::UNSIGNED.with(|u| u.set(false));
        let mut m = Merge::new(all.iter().map(|s| s.facts.clone()).collect(), self.key);
        m.looping = true;
        m.entries = 1;
        let prev = self.tm.clone();
        m.prev = Some(&prev);
        m.entry_syms = Some(syms);
        let mem = e.merge_mem(&all, &mut m).0;
        let facts = m.merge_facts();
        let mut next = std::mem::take(&mut m.next);
        next.facts = facts.0.iter().cloned().collect();
        let st = State { mem: Rc::new(mem), facts, imp: all.iter().any(|s| s.imp) };
        let same = st.mem == self.st.mem && st.facts.0 == self.st.facts.0;
        if !same && std::env::var("VF_FIX").is_ok() {
            e.diff(&self.st, &st);
        }
        self.st = st;
        self.tm = next;
        !same
    }
}

pub fn root(e: &Eng, name: &str) -> usize {
    e.p.roots.iter().find(|r| r.0 == *name || r.0.ends_with(&format!("::{name}"))).unwrap_or_else(|| panic!("no root {name}")).1
}
/// The values of a root's arguments: the loaded filesystem where it takes
/// one, anything else arbitrary.
pub fn args(e: &Eng, st: &mut State, f: usize, given: &[(&str, V)]) -> Vec<V> {
    let fun = &e.p.fns[f];
    fun.sig
        .0
        .iter()
        .enumerate()
        .map(|(i, t)| {
            let n = &e.p.tys[*t].name;
            for (g, v) in given {
                if n == g {
                    return v.clone();
                }
            }
            if let TyK::Ref(to, _) = e.ty(*t) {
                let m = &e.p.tys[*to].name;
                for (g, v) in given {
                    if m == g {
                        let cell = hash(&("given", i, m));
                        st.set(cell, v.clone());
                        return V::Ref(Rc::new(Place::cell(cell)));
                    }
                }
            }
            e.sym_v(st, *t, hash(&("arg", i)))
        })
        .collect()
}
pub fn run(e: &Eng, name: &str, mut st: State, given: &[(&str, V)]) -> Out {
    let f = root(e, name);
    *e.root.borrow_mut() = name.to_string();
    st.set(G_IO, V::int(0));
    let a = args(e, &mut st, f, given);
    e.call(f, a, st, hash(&("root", name)), e.p.fns[f].sig.1)
}
/// Exits whose result is the given variant, with the payload.
pub fn variant(e: &Eng, out: Out, ty: usize, var: &str) -> Out {
    let k = e.variant(ty, var);
    let mut r = vec![];
    for (mut s, v) in out {
        let V::Enum(en) = &v else { continue };
        if !s.facts.assume(&Fact::Eq(en.tag.addk(-(k as i128)))) {
            continue;
        }
        let cell = hash(&"variant");
        s.set(cell, v);
        if e.refine(&mut s, &Place::cell(cell), k) {
            let p = e.read(&mut s, &Place { cell, proj: vec![P::V(k), P::F(0)] });
            s.del(cell);
            r.push((s, p));
        }
    }
    r
}
/// One state for several.
pub fn one(e: &Eng, out: Out, cell: Cell) -> Option<State> {
    let ss: Vec<State> = out
        .into_iter()
        .map(|(mut s, v)| {
            s.set(cell, v);
            s
        })
        .collect();
    if ss.is_empty() {
        return None;
    }
    Some(e.merge(ss, hash(&("one", cell))))
}
/// A state with a loaded filesystem in FS.
pub fn load(e: &Eng) -> Option<State> {
    let out = run(e, "api_load", State::new(), &[]);
    let ty = e.p.fns[root(e, "api_load")].sig.1;
    if std::env::var("VF_BASE").is_ok() {
        for (s, v) in &out {
            eprintln!("EXIT {} {:?}", v.show().chars().take(80).collect::<String>(), s.mem.keys().map(|c| c & 0xffff).collect::<Vec<_>>());
        }
    }
    let ok = variant(e, out, ty, "Ok");
    if std::env::var("VF_BASE").is_ok() {
        for (s, v) in &ok {
            eprintln!("OK {} {:?}", v.show().chars().take(80).collect::<String>(), s.mem.keys().map(|c| c & 0xffff).collect::<Vec<_>>());
        }
    }
    let st = one(e, ok, FS)?;
    if std::env::var("VF_BASE").is_ok() {
        for (c, v) in st.mem.iter() {
            eprintln!("load cell {:x}: {}", c & 0xffff, v.show());
        }
        for x in st.facts.0.iter() {
            eprintln!("   {}", x.show());
        }
    }
    globals(e, &st);
    Some(st)
}
/// From now on the names in the loaded filesystem are known everywhere.
fn globals(e: &Eng, st: &State) {
    let mut g: std::collections::HashSet<Id> = Default::default();
    let mut h = e.heap.borrow_mut();
    for (c, v) in st.mem.iter() {
        h.insert(*c);
        visit(v, &mut |x| {
            let mut o = BTreeSet::new();
            match x {
                Ok(l) => atoms_of(l, &mut o),
                Err(c) => catoms(c, &mut o),
            }
            g.extend(o);
        });
    }
    h.remove(&FS);
    *e.globals.borrow_mut() = Rc::new(g);
    e.sums.set(std::env::var("VF_SUMS").is_ok());
}
/// The loaded filesystem after any number of operations.
pub fn settled(e: &Eng, st: State) -> Fix {
    let mut fx = Fix::new(st, hash(&"fs"));
    for i in 0..10 {
        let t = std::time::Instant::now();
        let n = e.log.borrow().len();
        let out = match crate::cut::find(e, "ext4_view::Ext4::read_from_block") {
            Some(f) => crate::cut::run_fn(e, f, &fx.st),
            None => run_fs(e, "api_exists", &fx.st),
        };
        e.log.borrow_mut().truncate(n);
        if std::env::var("VF_FIX").is_ok() {
            for (s, v) in &out {
                eprintln!("OUT {}", v.show().chars().take(60).collect::<String>());
                for (c, v) in s.mem.iter() {
                    if fx.st.mem.contains_key(c) && fx.st.get(*c) != *v {
                        eprintln!("   {:x}: {}", c & 0xffff, v.show());
                    }
                }
            }
        }
        let ch = fx.widen(e, out.into_iter().map(|x| x.0).collect());
        eprintln!("settle {i}: {:.2}s changed {ch}", t.elapsed().as_secs_f64());
        if !ch {
            break;
        }
    }
    fx
}
pub fn run_fs(e: &Eng, name: &str, st: &State) -> Out {
    let mut st = st.clone();
    let v = st.get(FS);
    run(e, name, st, &[("ext4_view::Ext4", v)])
}
