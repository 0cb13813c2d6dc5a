//! Names and paths are well formed: what is known about the bytes of a buffer
//! (which byte values do not occur, how long parts between slashes are), how
//! searches establish it, and the demand for it wherever a name or path is made.
use crate::exec::*;
use crate::prog::*;
use crate::rules::*;
use crate::solve::*;
use crate::state::*;
use crate::term::*;

/// The split in progress: bytes, separator known, length of the part not yet
/// found short enough (with a flag), whether some part was not.
pub const G_SPLIT: Cell = 0x23;
pub const G_PART: Cell = 0x24;
pub const G_PPEND: Cell = 0x25;
pub const G_PBAD: Cell = 0x26;
pub const GH: &[Cell] = &[G_SPLIT, G_PART, G_PPEND, G_PBAD];
pub const SEP: i128 = 0x2f;

/// Whether some byte of a range has a value.
pub fn has(c: Cid, off: &Lin, len: &Lin, b: &Lin) -> Lin {
    fun("has", vec![Arg::C(c), Arg::L(off.clone()), Arg::L(len.clone()), Arg::L(b.clone())], Some(0), Some(1))
}
/// Whether every part between slashes of a range is at most 255 bytes long.
pub fn parts(c: Cid, off: &Lin, len: &Lin) -> Lin {
    fun("parts", vec![Arg::C(c), Arg::L(off.clone()), Arg::L(len.clone())], Some(0), Some(1))
}
fn known(st: &State, tag: &str, c: Cid, off: &Lin, len: &Lin, b: Option<i128>, want: i128) -> bool {
    for f in st.facts.0.iter() {
        let (Fact::Eq(l) | Fact::Ge(l)) = f else { continue };
        for (a, _) in &l.t {
            let Atom::Fun(t, args, ..) = atom(*a) else { continue };
            if t != tag {
                continue;
            }
            let (Some(Arg::C(c2)), Some(Arg::L(o2)), Some(Arg::L(l2))) = (args.first(), args.get(1), args.get(2)) else { continue };
            if *c2 != c {
                continue;
            }
            if let (Some(b), Some(Arg::L(x))) = (b, args.get(3)) {
                if x.is_c() != Some(b) {
                    continue;
                }
            }
            if st.holds(&eq(&Lin::a(*a), &Lin::c(want))) && st.holds(&ge(off, o2)) && st.holds(&ge(&o2.add(l2), &off.add(len))) {
                return true;
            }
        }
    }
    false
}
/// The range, cut where a part of the content comes from elsewhere.
pub fn pieces(st: &State, c: Cid, off: &Lin, len: &Lin) -> Option<Vec<(Cid, Lin, Lin)>> {
    let Cont::Patch { base, off: po, len: pl, src, soff } = cont(c) else { return None };
    let (end, pend) = (off.add(len), po.add(&pl));
    if st.holds(&ge(&po, &end)) || st.holds(&ge(off, &pend)) || pl.is_c() == Some(0) {
        return Some(vec![(base, off.clone(), len.clone())]);
    }
    let mut v = vec![];
    let (mut from, mut to) = (off.clone(), end.clone());
    if !st.holds(&ge(off, &po)) {
        if !st.holds(&ge(&po, off)) {
            return None;
        }
        v.push((base, off.clone(), po.sub(off)));
        from = po.clone();
    }
    let mut tail = None;
    if st.holds(&eq(&pend, &end)) {
        to = pend.clone();
    } else if !st.holds(&ge(&pend, &end)) {
        if !st.holds(&ge(&end, &pend)) {
            return None;
        }
        tail = Some((base, pend.clone(), end.sub(&pend)));
        to = pend.clone();
    }
    v.push((src, soff.add(&from.sub(&po)), to.sub(&from)));
    v.extend(tail);
    Some(v)
}
fn empty(st: &State, len: &Lin) -> bool {
    st.holds(&ge(&Lin::c(0), len))
}
fn byte_is(e: &Eng, st: &State, c: Cid, at: &Lin, b: i128) -> bool {
    let x = e.load(st, c, at, 1, false);
    decide(st, &eq(&x, &Lin::c(b)))
}
/// A byte value does not occur in a range.
pub fn lacks(e: &Eng, st: &State, c: Cid, off: &Lin, len: &Lin, b: i128, depth: u32) -> bool {
    if empty(st, len) || known(st, "has", c, off, len, Some(b), 0) {
        return true;
    }
    if let Some(n) = len.is_c() {
        if n <= 4 && (0..n).all(|i| decide(st, &eq(&e.load(st, c, &off.addk(i), 1, false), &Lin::c(b)).not())) {
            return true;
        }
    }
    match cont(c) {
        Cont::Zero if b != 0 => return true,
        Cont::Const(v) => {
            if let (Some(o), Some(n)) = (off.is_c(), len.is_c()) {
                return v.iter().skip(o.max(0) as usize).take(n.max(0) as usize).all(|x| *x as i128 != b);
            }
            if v.iter().all(|x| *x as i128 != b) {
                return true;
            }
        }
        _ => {}
    }
    depth > 0 && pieces(st, c, off, len).is_some_and(|p| p.iter().all(|(c, o, l)| lacks(e, st, *c, o, l, b, depth - 1)))
}
/// Every part between slashes is short enough.
pub fn short(e: &Eng, st: &State, c: Cid, off: &Lin, len: &Lin, depth: u32) -> bool {
    if st.holds(&ge(&Lin::c(255), len)) || known(st, "parts", c, off, len, None, 1) {
        return true;
    }
    if depth == 0 {
        return false;
    }
    let Some(p) = pieces(st, c, off, len) else { return false };
    if !p.iter().all(|(c, o, l)| short(e, st, *c, o, l, depth - 1)) {
        return false;
    }
    // Parts meet only at slashes.
    p.windows(2).all(|w| {
        let ((c1, o1, l1), (c2, o2, l2)) = (&w[0], &w[1]);
        empty(st, l1) || empty(st, l2) || byte_is(e, st, *c1, &o1.add(l1).addk(-1), SEP) || byte_is(e, st, *c2, o2, SEP)
    })
}

// ---- what searches establish ----------------------------------------------------------

/// A comparison of one byte with a constant: the content, position, constant.
pub fn compares(c: &Cond) -> Option<(Cid, Lin, i128)> {
    let Cond::A(Fact::Eq(l)) = c else { return None };
    let [(a, k)] = &l.t[..] else { return None };
    if k.abs() != 1 {
        return None;
    }
    match atom(*a) {
        Atom::Load(c, o, 1, _) => Some((c, o, -l.k * k)),
        _ => None,
    }
}

// ---- made and given values ---------------------------------------------------------------

fn short_name(n: &str) -> &str {
    n.split('<').next().unwrap_or(n).rsplit("::").next().unwrap_or(n)
}
/// The kind of a type that has to be well formed.
fn kind(e: &Eng, ty: usize) -> Option<&'static str> {
    match e.ty(ty) {
        TyK::Adt { path, .. } => match path.as_str() {
            p if !p.starts_with("ext4_view::") => None,
            p => match short_name(p) {
                "Path" => Some("Path"),
                "PathBuf" => Some("PathBuf"),
                "DirEntryName" => Some("DirEntryName"),
                "DirEntryNameBuf" => Some("DirEntryNameBuf"),
                _ => None,
            },
        },
        _ => None,
    }
}
fn flat(v: &V) -> V {
    match v {
        V::Agg(a) if a.len() == 1 => flat(&a[0]),
        v => v.clone(),
    }
}
/// Names and paths in a given value are well formed.
fn given(e: &Eng, st: &mut State, v: &V, ty: usize, depth: u32) {
    if depth == 0 {
        return;
    }
    match kind(e, ty) {
        Some("Path") | Some("PathBuf") => {
            let x = flat(v);
            if let Some((c, o, l)) = e.bytes(st, &x) {
                st.assume(&eq(&has(c, &o, &l, &Lin::c(0)), &Lin::c(0)));
                st.assume(&eq(&parts(c, &o, &l), &Lin::c(1)));
            }
            return;
        }
        Some("DirEntryName") => {
            let x = flat(v);
            if let Some((c, o, l)) = e.bytes(st, &x) {
                name_facts(st, c, &o, &l);
            }
            return;
        }
        Some("DirEntryNameBuf") => {
            if let V::Agg(a) = v {
                let b = a.iter().find_map(|x| e.bytes(st, x));
                let n = a.iter().find_map(|x| if let V::Int(l) = x { Some(l.clone()) } else { None });
                if let (Some((c, o, _)), Some(n)) = (b, n) {
                    name_facts(st, c, &o, &n);
                }
            }
            return;
        }
        _ => {}
    }
    match (e.ty(ty).clone(), v) {
        (TyK::Ref(t, _), V::Ref(p)) => {
            let x = e.read(st, p);
            given(e, st, &x, t, depth - 1);
        }
        (TyK::Ref(t, _), x) => given(e, st, x, t, depth - 1),
        (TyK::Adt { targs, .. }, V::Shared(c)) if !targs.is_empty() => {
            if matches!(e.ty(targs[0]), TyK::Adt { path, .. } if path == "ext4_view::PathBuf") {
                let x = st.get(*c);
                given(e, st, &x, targs[0], depth - 1);
            }
        }
        (TyK::Adt { path, .. }, V::Enum(en)) if path == "std::option::Option" || path == "std::result::Result" => {
            if let Some(p) = en.tag.is_c().and_then(|k| en.pay.get(&(k as usize))) {
                if let (TyK::Adt { vars, .. }, Some(k)) = (e.ty(ty).clone(), en.tag.is_c()) {
                    for (t, x) in vars[k as usize].fields.iter().zip(p.vals.iter()) {
                        given(e, st, x, t.1, depth - 1);
                    }
                }
            }
        }
        (TyK::Adt { kind: AdtK::Struct, vars, .. }, V::Agg(a)) if vars.len() == 1 => {
            for (t, x) in vars[0].fields.iter().zip(a.iter()) {
                given(e, st, x, t.1, depth - 1);
            }
        }
        (TyK::Tuple(ts), V::Agg(a)) => {
            for (t, x) in ts.iter().zip(a.iter()) {
                given(e, st, x, *t, depth - 1);
            }
        }
        _ => {}
    }
}
fn name_facts(st: &mut State, c: Cid, o: &Lin, l: &Lin) {
    st.assume(&eq(&has(c, o, l, &Lin::c(0)), &Lin::c(0)));
    st.assume(&eq(&has(c, o, l, &Lin::c(SEP)), &Lin::c(0)));
    st.assume(&Cond::and(vec![ge(l, &Lin::c(1)), ge(&Lin::c(255), l)]));
}
pub fn on_enter(e: &Eng, st: &mut State, f: usize, args: &[V]) {
    if !e.on("C13") {
        return;
    }
    for c in GH {
        st.del(*c);
    }
    st.set(G_PART, V::int(0));
    st.set(G_PPEND, V::int(0));
    st.set(G_PBAD, V::int(0));
    for (a, t) in args.iter().zip(e.p.fns[f].sig.0.clone()) {
        given(e, st, a, t, 7);
    }
}
/// Names and paths in what a unit returned are well formed.
pub fn returned(e: &Eng, out: Out, ty: usize) -> Out {
    if !e.on("C13") {
        return out;
    }
    out.into_iter()
        .map(|(mut s, v)| {
            given(e, &mut s, &v, ty, 7);
            (s, v)
        })
        .collect()
}
/// Functions of the library the current ones call, directly or not.
fn around(e: &Eng) -> Vec<usize> {
    let own = |f: usize| matches!(e.p.fns[f].krate.as_str(), "ext4_view" | "harness");
    let mut v: Vec<usize> = e.stack.borrow().iter().map(|x| x.0).filter(|f| own(*f)).collect();
    let mut seen: std::collections::HashSet<usize> = v.iter().copied().collect();
    let mut i = 0;
    while i < v.len() && v.len() < 3000 {
        if let Some(b) = &e.p.fns[v[i]].body {
            for x in &b.blocks {
                let mut next = vec![];
                if let Tm::Call { f: Callee::Fn(g), .. } = &x.t {
                    next.push(*g);
                    // Closures passed along.
                    for t in &e.p.fns[*g].targs {
                        if let TyK::Closure(h, _) | TyK::FnDef(h) = e.ty(*t) {
                            if *h >= 0 {
                                next.push(*h as usize);
                            }
                        }
                    }
                }
                for s in &x.s {
                    if let St::Assign(_, Rv::AggClosure(g, _), _) = s {
                        next.push(*g);
                    }
                }
                for g in next {
                    if g < e.p.fns.len() && !crate::cut::is_unit(e, g) && seen.insert(g) {
                        v.push(g);
                    }
                }
            }
        }
        i += 1;
    }
    v.retain(|f| own(*f));
    v
}
fn repeats(e: &Eng, f: usize) -> bool {
    e.p.fns[f].name.contains("closure") || e.p.fns[f].body.as_ref().is_some_and(|b| !b.cfg.loops.is_empty())
}
fn is_byte(e: &Eng, b: &Body, o: &Op) -> bool {
    match o {
        Op::Const(t, _) => e.is_u8(*t) || e.p.tys[*t].name == "char",
        Op::Copy(p) | Op::Move(p) => p.proj.is_empty() && (e.is_u8(b.locals[p.local]) || e.p.tys[b.locals[p.local]].name == "char"),
        _ => false,
    }
}
/// Whether something other than the searches modelled looks for a byte value.
fn other_search(e: &Eng, k: i128) -> bool {
    around(e).into_iter().any(|f| {
        let Some(b) = &e.p.fns[f].body else { return false };
        let konst = |o: &Op| -> Option<Option<i128>> {
            if !is_byte(e, b, o) {
                return None;
            }
            Some(match o {
                Op::Const(t, j) => match e.konst(&mut State::new(), *t, j) {
                    V::Int(l) => l.is_c(),
                    _ => None,
                },
                _ => None,
            })
        };
        let closure = e.p.fns[f].name.contains("closure");
        // A search goes on as long as the value is not found.
        let on = |from: usize, to: usize| closure || b.cfg.loops.iter().any(|l| l.body[from] && l.body[to]);
        b.blocks.iter().enumerate().any(|(n, x)| {
            let mut found: Vec<(usize, bool)> = vec![];
            for s in &x.s {
                if let St::Assign(p, Rv::Bin(o, a, c), _) = s {
                    if (o == "Eq" || o == "Ne") && p.proj.is_empty() {
                        let hit = match (konst(a), konst(c)) {
                            (Some(Some(a)), _) | (_, Some(Some(a))) => a == k,
                            (Some(None), _) | (_, Some(None)) => true,
                            _ => false,
                        };
                        if hit {
                            found.push((p.local, o == "Eq"));
                        }
                    }
                }
            }
            closure && !found.is_empty() || match &x.t {
                Tm::Switch(o, v, d) if (is_byte(e, b, o) || matches!(o, Op::Copy(p) | Op::Move(p) if !p.proj.is_empty())) && v.iter().any(|y| y.0 == k) => on(n, *d),
                Tm::Switch(Op::Copy(p) | Op::Move(p), v, d) if p.proj.is_empty() && found.iter().any(|y| y.0 == p.local) => {
                    let is_eq = found.iter().any(|y| y.0 == p.local && y.1);
                    let at = |z: i128| v.iter().find(|y| y.0 == z).map_or(*d, |y| y.1);
                    on(n, if is_eq { at(0) } else { at(1) })
                }
                Tm::Call { f: Callee::Fn(g), args, .. } if !matches!(e.p.fns[*g].krate.as_str(), "ext4_view" | "harness") && e.p.fns[*g].path != "core::slice::<impl [T]>::contains" => {
                    args.iter().any(|a| konst(a) == Some(Some(k)))
                }
                _ => false,
            }
        })
    })
}
/// Whether lengths between slashes may be checked in a way not modelled.
fn other_split(e: &Eng) -> bool {
    let fs = around(e);
    let split = fs.iter().any(|f| {
        e.p.fns[*f].body.as_ref().is_some_and(|b| b.blocks.iter().any(|x| matches!(&x.t, Tm::Call { f: Callee::Fn(g), .. } if e.p.fns[*g].path == "core::slice::<impl [T]>::split")))
    });
    !split && fs.iter().any(|f| repeats(e, *f))
}
fn report(e: &Eng, what: String, ok: bool, imp: bool, text: &str) {
    e.ob("C13", format!("{}: {}", e.here(), what), if ok { String::new() } else { format!("{} [at {}]", text, e.here()) }, ok, imp);
}
fn facts(st: &State) -> String {
    if std::env::var("VF_FACTS").is_err() {
        return String::new();
    }
    st.facts.0.iter().map(|f| format!("\n        {}", f.show())).collect()
}
fn path_ok(e: &Eng, st: &State, what: &str, v: &V) {
    let mut s = st.clone();
    let Some((c, o, l)) = e.bytes(&mut s, &flat(v)) else {
        report(e, format!("{what}: bytes"), false, true, "the bytes are not tracked");
        return;
    };
    let imp = s.imp || imp_cont(c) || o.imp() || l.imp();
    let ok = lacks(e, &s, c, &o, &l, 0, 6);
    report(e, format!("{what}: null"), ok, imp || !ok && other_search(e, 0), &format!("a {what} may contain a null byte ({}{})", show_cont(c), facts(&s)));
    let ok = short(e, &s, c, &o, &l, 6);
    report(e, format!("{what}: components"), ok, imp || !ok && (gint(&s, G_PBAD) == Some(2) || other_split(e)), &format!("a {what} may have a component longer than 255 bytes ({}{})", show_cont(c), facts(&s)));
}
fn name_ok(e: &Eng, st: &State, what: &str, c: Cid, o: &Lin, l: &Lin) {
    let imp = st.imp || imp_cont(c) || o.imp() || l.imp();
    let from_path = lacks(e, st, c, o, l, SEP, 6) && short(e, st, c, o, l, 6);
    report(e, format!("{what}: empty"), st.holds(&ge(l, &Lin::c(1))), imp, &format!("a name may be empty{}", facts(st)));
    report(e, format!("{what}: length"), from_path || st.holds(&ge(&Lin::c(255), l)), imp || !from_path && (other_search(e, SEP) || other_split(e)), "a name may be longer than 255 bytes");
    for (k, n) in [(0, "null byte"), (SEP, "slash")] {
        let ok = lacks(e, st, c, o, l, k, 6);
        report(e, format!("{what}: {n}"), ok, imp || !ok && other_search(e, k), &format!("a name may contain a {n} ({} {} {}{})", show_cont(c), show(o), show(l), facts(st)));
    }
}
/// A struct value is made.
pub fn on_wrap(e: &Eng, st: &State, ty: usize, vs: &[V]) {
    if !e.on("C13") || e.prefix.get() || vs.len() != 1 {
        return;
    }
    match kind(e, ty) {
        Some(k @ ("Path" | "PathBuf")) => path_ok(e, st, k, &vs[0]),
        Some("DirEntryName") => {
            let mut s = st.clone();
            match e.bytes(&mut s, &flat(&vs[0])) {
                Some((c, o, l)) => name_ok(e, &s, "DirEntryName", c, &o, &l),
                None => report(e, "DirEntryName: bytes".into(), false, true, "the bytes are not tracked"),
            }
        }
        _ => {}
    }
}
/// Names and paths in the results.
fn made(e: &Eng, st: &State, v: &V, ty: usize, depth: u32) {
    if depth == 0 {
        return;
    }
    match kind(e, ty) {
        Some(k @ ("Path" | "PathBuf")) => return path_ok(e, st, k, v),
        Some("DirEntryName") => {
            let mut s = st.clone();
            match e.bytes(&mut s, &flat(v)) {
                Some((c, o, l)) => name_ok(e, &s, "DirEntryName", c, &o, &l),
                None => report(e, "DirEntryName: bytes".into(), false, true, "the bytes are not tracked"),
            }
            return;
        }
        Some("DirEntryNameBuf") => {
            if let V::Agg(a) = v {
                let mut s = st.clone();
                let b = a.iter().find_map(|x| e.bytes(&mut s, x));
                let n = a.iter().find_map(|x| if let V::Int(l) = x { Some(l.clone()) } else { None });
                if let (Some((c, o, _)), Some(n)) = (b, n) {
                    return name_ok(e, &s, "name of an entry", c, &o, &n);
                }
            }
            return report(e, "name of an entry: bytes".into(), false, true, "the bytes are not tracked");
        }
        _ => {}
    }
    match (e.ty(ty).clone(), v) {
        (TyK::Ref(t, true), V::Ref(p)) => {
            let mut s = st.clone();
            let x = e.read(&mut s, p);
            made(e, &s, &x, t, depth - 1);
        }
        (TyK::Adt { kind: AdtK::Struct, vars, path, .. }, V::Agg(a)) if vars.len() == 1 && path.starts_with("ext4_view::") => {
            for (t, x) in vars[0].fields.iter().zip(a.iter()) {
                if kind(e, t.1).is_some() {
                    made(e, st, x, t.1, depth - 1);
                }
            }
        }
        (TyK::Tuple(ts), V::Agg(a)) => {
            for (t, x) in ts.iter().zip(a.iter()) {
                made(e, st, x, *t, depth - 1);
            }
        }
        (TyK::Adt { path, .. }, V::Enum(_)) if path == "std::option::Option" || path == "std::result::Result" || path.ends_with("::Component") => {
            for (s, k, p) in cases(e, st, v, ty) {
                if k == "Err" {
                    continue;
                }
                if let Some(x) = p.first() {
                    let t = e.pty(ty, &k, 0);
                    made(e, &s, x, t, depth - 1);
                }
            }
        }
        _ => {}
    }
}
pub fn on_exits(e: &Eng, f: usize, args: &[V], out: &[(State, V)]) {
    if !e.on("C13") {
        return;
    }
    let rty = e.p.fns[f].sig.1;
    let root = e.p.fns[f].name.rsplit("::").next().unwrap_or("").to_string();
    for (s, v) in out {
        made(e, s, v, rty, 8);
        // Objects changed in place.
        for (a, t) in args.iter().zip(e.p.fns[f].sig.0.clone()) {
            if matches!(e.ty(t), TyK::Ref(x, true) if kind(e, *x).is_some()) {
                made(e, s, a, t, 3);
            }
        }
        // What is pushed has to be a path.
        if root == "doc_pathbuf_push" {
            if let Some(V::View { .. }) = args.get(1) {
                path_ok(e, s, "pushed path", &args[1]);
            }
        }
    }
}

// ---- splitting ------------------------------------------------------------------------------

/// A slice is split at a byte value (if that is what the predicate says).
pub fn on_split(e: &Eng, st: &mut State, v: &V, sep: Option<bool>) {
    if !e.on("C13") {
        return;
    }
    st.set(G_PART, V::int(0));
    st.set(G_PPEND, V::int(0));
    st.set(G_PBAD, V::int(match sep {
        Some(true) => 0,
        Some(false) => 1,
        None => 2,
    }));
    let mut s = st.clone();
    match e.bytes(&mut s, v) {
        Some((c, off, len)) => st.set(G_SPLIT, V::View { c, off, len }),
        None => st.set(G_SPLIT, V::int(0)),
    }
}
fn part_done(st: &mut State) {
    if gint(st, G_PPEND) == Some(0) {
        return;
    }
    if let V::Int(l) = st.get(G_PART) {
        if !st.holds(&ge(&Lin::c(255), &l)) {
            st.set(G_PBAD, V::int(1));
        }
    }
    st.set(G_PART, V::int(0));
    st.set(G_PPEND, V::int(0));
}
pub fn on_part(e: &Eng, st: &mut State, len: Option<&Lin>) {
    if !e.on("C13") {
        return;
    }
    // What is made of the parts is not followed.
    let folds = |n: &str| ["::fold", "::max", "::min", "::reduce", "::count", "::sum", "::last", "::for_each", "filter", "collect"].iter().any(|x| n.contains(x)) && !n.contains("try_fold");
    if e.stack.borrow().iter().any(|x| e.p.fns[x.0].krate != "ext4_view" && folds(&e.p.fns[x.0].path)) {
        st.set(G_PBAD, V::int(2));
    }
    match len {
        Some(l) => {
            st.set(G_PART, V::Int(l.clone()));
            st.set(G_PPEND, V::int(1));
        }
        None => {
            if gint(st, G_PBAD) == Some(0) {
                if let V::View { c, off, len } = st.get(G_SPLIT) {
                    st.assume(&eq(&parts(c, &off, &len), &Lin::c(1)));
                }
            }
        }
    }
}
pub fn before_part(e: &Eng, st: &mut State) {
    if e.on("C13") {
        part_done(st);
    }
}
pub fn settle(e: &Eng, st: &mut State) {
    if e.on("C13") && gint(st, G_PPEND) == Some(1) {
        if let V::Int(l) = st.get(G_PART) {
            if st.holds(&ge(&Lin::c(255), &l)) {
                st.set(G_PART, V::int(0));
                st.set(G_PPEND, V::int(0));
            }
        }
    }
}
