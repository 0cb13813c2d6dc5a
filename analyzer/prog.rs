//! The program under analysis: typed MIR read from the extractor's JSON, with
//! per-function control-flow facts (order, loops, liveness).
use crate::json::J;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum TyK {
    Bool,
    Int { bits: u32, signed: bool },
    Char,
    Str,
    Never,
    Array(usize, i64),
    Slice(usize),
    Ptr(usize),
    Ref(usize, bool),
    Tuple(Vec<usize>),
    FnDef(i64),
    FnPtr,
    Closure(i64, Vec<usize>),
    Dyn(String),
    Adt { kind: AdtK, path: String, vars: Vec<Variant>, targs: Vec<usize>, krate: String },
    Other,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum AdtK {
    Enum,
    Struct,
    Union,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Variant {
    pub name: String,
    pub discr: i128,
    pub fields: Vec<(String, usize)>,
}
#[derive(Clone, Debug)]
pub struct Ty {
    pub k: TyK,
    pub name: String,
    pub size: i64,
}

#[derive(Clone, Debug)]
pub enum Pj {
    Deref,
    Field(usize, usize),
    Index(usize),
    ConstIndex(usize, bool),
    Sub(usize, usize, bool),
    Down(usize),
    Other,
}
#[derive(Clone, Debug)]
pub struct Pl {
    pub local: usize,
    pub proj: Vec<Pj>,
}
#[derive(Clone, Debug)]
pub enum Op {
    Copy(Pl),
    Move(Pl),
    Const(usize, J),
    Other,
}
#[derive(Clone, Debug)]
pub enum Rv {
    Use(Op),
    Ref(bool, Pl),
    Addr(bool, Pl),
    Bin(String, Op, Op),
    CBin(String, Op, Op),
    Un(String, Op),
    Cast(String, Op, usize),
    Discr(Pl),
    Len(Pl),
    Repeat(Op, i64),
    AggArray(usize, Vec<Op>),
    AggTuple(Vec<Op>),
    AggAdt(usize, usize, Vec<Op>),
    AggClosure(usize, Vec<Op>),
    AggPtr(Vec<Op>),
    Other,
}
#[derive(Clone, Debug)]
pub enum St {
    Assign(Pl, Rv, u32),
    SetDiscr(Pl, usize),
    Dead(usize),
    Live(usize),
    Assume(Op),
    /// No device error yet.
    Calm,
    Nop,
}
#[derive(Clone, Debug)]
pub enum Msg {
    Bounds(Op, Op),
    Overflow(String, Op, Op),
    Other(String),
}
#[derive(Clone, Debug)]
pub enum Tm {
    Goto(usize),
    Switch(Op, Vec<(i128, usize)>, usize),
    Ret,
    Unreachable,
    Stop,
    Drop(Pl, usize),
    Call { f: Callee, args: Vec<Op>, dst: Pl, target: i64 },
    Assert { cond: Op, expected: bool, msg: Msg, target: usize },
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(usize),
    Op(Op),
    Unres(String),
}
#[derive(Clone, Debug)]
pub struct Block {
    pub s: Vec<St>,
    pub t: Tm,
    pub loc: u32,
}
#[derive(Debug)]
pub struct Body {
    pub argc: usize,
    pub spread: i64,
    pub span: String,
    pub locals: Vec<usize>,
    pub names: HashMap<usize, String>,
    pub blocks: Vec<Block>,
    pub cfg: Cfg,
}
#[derive(Debug, Default)]
pub struct Cfg {
    /// Position of each block in reverse post-order (usize::MAX: unreachable).
    pub rpo: Vec<usize>,
    pub order: Vec<usize>,
    /// Loop index headed by a block.
    pub head: Vec<Option<usize>>,
    pub loops: Vec<Loop>,
    /// live_in[b]: locals live at entry of b.
    pub live: Vec<Vec<bool>>,
    pub dropflag: Vec<bool>,
}
#[derive(Debug)]
pub struct Loop {
    pub header: usize,
    pub body: Vec<bool>,
}
#[derive(Debug)]
pub struct Fun {
    pub name: String,
    pub path: String,
    pub krate: String,
    pub kind: String,
    pub intr: String,
    pub tc: bool,
    pub targs: Vec<usize>,
    pub sig: (Vec<usize>, usize),
    pub body: Option<Body>,
}
pub struct Prog {
    pub fns: Vec<Fun>,
    pub tys: Vec<Ty>,
    pub roots: Vec<(String, usize)>,
    pub locs: Vec<String>,
}

struct Rd {
    locs: Vec<String>,
    loc_ids: HashMap<String, u32>,
}
impl Rd {
    fn loc(&mut self, s: &str) -> u32 {
        if let Some(i) = self.loc_ids.get(s) {
            return *i;
        }
        let i = self.locs.len() as u32;
        self.locs.push(s.to_string());
        self.loc_ids.insert(s.to_string(), i);
        i
    }
}

fn place(j: &J) -> Pl {
    let mut proj = vec![];
    for p in j.at(1).arr() {
        proj.push(match p.at(0).s() {
            "*" => Pj::Deref,
            "f" => Pj::Field(p.at(1).n() as usize, p.at(2).n() as usize),
            "i" => Pj::Index(p.at(1).n() as usize),
            "c" => Pj::ConstIndex(p.at(1).n() as usize, p.at(3).b()),
            "s" => Pj::Sub(p.at(1).n() as usize, p.at(2).n() as usize, p.at(3).b()),
            "d" => Pj::Down(p.at(1).n() as usize),
            _ => Pj::Other,
        });
    }
    Pl { local: j.at(0).n() as usize, proj }
}
fn op(j: &J) -> Op {
    match j.at(0).s() {
        "c" => Op::Copy(place(j.at(1))),
        "m" => Op::Move(place(j.at(1))),
        "k" => Op::Const(j.at(1).n() as usize, j.at(2).clone()),
        _ => Op::Other,
    }
}
fn rv(j: &J) -> Rv {
    match j.at(0).s() {
        "use" => Rv::Use(op(j.at(1))),
        "ref" => Rv::Ref(j.at(1).b(), place(j.at(2))),
        "addr" => Rv::Addr(j.at(1).b(), place(j.at(2))),
        "bin" => Rv::Bin(j.at(1).s().into(), op(j.at(2)), op(j.at(3))),
        "cbin" => Rv::CBin(j.at(1).s().into(), op(j.at(2)), op(j.at(3))),
        "un" => Rv::Un(j.at(1).s().into(), op(j.at(2))),
        "cast" => Rv::Cast(j.at(1).s().into(), op(j.at(2)), j.at(3).n() as usize),
        "discr" => Rv::Discr(place(j.at(1))),
        "len" => Rv::Len(place(j.at(1))),
        "repeat" => Rv::Repeat(op(j.at(1)), j.at(2).n() as i64),
        "agg" => {
            let k = j.at(1);
            let ops: Vec<Op> = j.at(2).arr().iter().map(op).collect();
            match k.at(0).s() {
                "array" => Rv::AggArray(k.at(1).n() as usize, ops),
                "tuple" => Rv::AggTuple(ops),
                "adt" => Rv::AggAdt(k.at(1).n() as usize, k.at(2).n() as usize, ops),
                "closure" => Rv::AggClosure(k.at(1).n() as usize, ops),
                "rawptr" => Rv::AggPtr(ops),
                _ => Rv::Other,
            }
        }
        _ => Rv::Other,
    }
}

pub fn load(j: &J) -> Prog {
    let mut r = Rd { locs: vec![], loc_ids: HashMap::new() };
    let mut tys = vec![];
    for t in j.key("tys").arr() {
        let u = |k: &str| t.key(k).n() as usize;
        let list = |k: &str| t.key(k).arr().iter().map(|x| x.n() as usize).collect::<Vec<_>>();
        let k = match t.key("k").s() {
            "bool" => TyK::Bool,
            "int" => TyK::Int { bits: u("bits") as u32, signed: t.key("signed").b() },
            "char" => TyK::Char,
            "str" => TyK::Str,
            "never" => TyK::Never,
            "array" => TyK::Array(u("elem"), t.key("len").n() as i64),
            "slice" => TyK::Slice(u("elem")),
            "ptr" => TyK::Ptr(u("to")),
            "ref" => TyK::Ref(u("to"), t.key("mut").b()),
            "tuple" => TyK::Tuple(list("elems")),
            "fndef" => TyK::FnDef(t.key("fn").n() as i64),
            "fnptr" => TyK::FnPtr,
            "closure" => TyK::Closure(t.key("fn").n() as i64, list("upvars")),
            "dyn" => TyK::Dyn(t.key("trait").s().into()),
            k @ ("enum" | "struct" | "union") => TyK::Adt {
                kind: match k {
                    "enum" => AdtK::Enum,
                    "struct" => AdtK::Struct,
                    _ => AdtK::Union,
                },
                path: t.key("path").s().into(),
                targs: list("targs"),
                krate: t.key("local").s().into(),
                vars: t
                    .key("vars")
                    .arr()
                    .iter()
                    .map(|v| {
                        let mut d = v.key("d").n();
                        // The only enum with a negative discriminant.
                        if t.key("path").s() == "std::cmp::Ordering" && d >= 128 {
                            d -= 256;
                        }
                        Variant {
                            name: v.key("n").s().into(),
                            discr: d,
                            fields: v.key("f").arr().iter().map(|f| (f.at(0).s().to_string(), f.at(1).n() as usize)).collect(),
                        }
                    })
                    .collect(),
            },
            _ => TyK::Other,
        };
        tys.push(Ty { k, name: t.key("n").s().into(), size: t.key("size").n() as i64 });
    }
    let mut fns = vec![];
    for f in j.key("fns").arr() {
        let body = f.get("blocks").map(|bs| {
            let mut blocks = vec![];
            for b in bs.arr() {
                let mut s: Vec<St> = vec![];
                for x in b.key("s").arr() {
                    let mut y = match x.at(0).s() {
                        "=" => St::Assign(place(x.at(1)), rv(x.at(2)), r.loc(x.at(3).s())),
                        "sd" => St::SetDiscr(place(x.at(1)), x.at(2).n() as usize),
                        "dead" => St::Dead(x.at(1).n() as usize),
                        "live" => St::Live(x.at(1).n() as usize),
                        "assume" => St::Assume(op(x.at(1))),
                        _ => St::Nop,
                    };
                    // The box whose content is accessed, not the temporary
                    // copy of the pointer made for it.
                    if let St::Assign(_, Rv::Cast(k, Op::Copy(src), _), _) = &mut y {
                        if k == "BoxDerefTransmute" {
                            let from = s.iter().rev().find_map(|z| match z {
                                St::Assign(d, Rv::Use(Op::Copy(p)), _) if d.local == src.local && d.proj.is_empty() => Some(p.clone()),
                                _ => None,
                            });
                            if let Some(mut p) = from {
                                p.proj.extend(src.proj.iter().cloned());
                                *src = p;
                            }
                        }
                    }
                    s.push(y);
                }
                let t = b.key("t");
                let tm = match t.at(0).s() {
                    "goto" => Tm::Goto(t.at(1).n() as usize),
                    "switch" => Tm::Switch(
                        op(t.at(1)),
                        t.at(2).arr().iter().map(|x| (x.at(0).s().parse::<u128>().unwrap_or(0) as i128, x.at(1).n() as usize)).collect(),
                        t.at(3).n() as usize,
                    ),
                    "ret" => Tm::Ret,
                    "unreachable" => Tm::Unreachable,
                    "drop" => Tm::Drop(place(t.at(1)), t.at(2).n() as usize),
                    "call" => {
                        let c = t.at(1);
                        let f = match c.at(0).s() {
                            "fn" => Callee::Fn(c.at(1).n() as usize),
                            "op" => Callee::Op(op(c.at(1))),
                            _ => Callee::Unres(c.at(1).s().into()),
                        };
                        Tm::Call { f, args: t.at(2).arr().iter().map(op).collect(), dst: place(t.at(3)), target: t.at(4).n() as i64 }
                    }
                    "assert" => {
                        let m = t.at(3);
                        let msg = match m.at(0).s() {
                            "bounds" => Msg::Bounds(op(m.at(1)), op(m.at(2))),
                            "overflow" => Msg::Overflow(m.at(1).s().into(), op(m.at(2)), op(m.at(3))),
                            k => Msg::Other(k.to_string()),
                        };
                        Tm::Assert { cond: op(t.at(1)), expected: t.at(2).b(), msg, target: t.at(4).n() as usize }
                    }
                    _ => Tm::Stop,
                };
                let loc = r.loc(b.key("l").s());
                blocks.push(Block { s, t: tm, loc });
            }
            let locals: Vec<usize> = f.key("locals").arr().iter().map(|x| x.n() as usize).collect();
            let names: HashMap<usize, String> = f.key("names").arr().iter().map(|x| (x.at(0).n() as usize, x.at(1).s().to_string())).collect();
            let cfg = cfg(&blocks, locals.len(), &names, &locals, &tys);
            Body { argc: f.key("argc").n() as usize, spread: f.key("spread").n() as i64, span: f.key("span").s().into(), locals, names, blocks, cfg }
        });
        let sig = f.key("sig");
        fns.push(Fun {
            name: f.key("name").s().into(),
            path: f.key("path").s().into(),
            krate: f.key("crate").s().into(),
            kind: f.key("kind").s().into(),
            intr: f.key("intr").s().into(),
            tc: f.key("tc").b(),
            targs: f.key("targs").arr().iter().map(|x| x.n() as usize).collect(),
            sig: (sig.at(0).arr().iter().map(|x| x.n() as usize).collect(), sig.at(1).n().max(0) as usize),
            body,
        });
    }
    let roots = j.key("roots").arr().iter().map(|x| (x.at(0).s().rsplit("::").next().unwrap_or("").to_string(), x.at(1).n() as usize)).collect();
    Prog { fns, tys, roots, locs: r.locs }
}

pub fn succs(b: &Block) -> Vec<usize> {
    match &b.t {
        Tm::Goto(t) | Tm::Drop(_, t) => vec![*t],
        Tm::Switch(_, v, o) => v.iter().map(|x| x.1).chain([*o]).collect(),
        Tm::Call { target, .. } => {
            if *target >= 0 {
                vec![*target as usize]
            } else {
                vec![]
            }
        }
        Tm::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}

fn cfg(bs: &[Block], nl: usize, names: &HashMap<usize, String>, locals: &[usize], tys: &[Ty]) -> Cfg {
    let n = bs.len();
    let mut state = vec![0u8; n];
    let mut post = vec![];
    let mut stack: Vec<(usize, usize)> = vec![(0, 0)];
    let mut back: Vec<(usize, usize)> = vec![];
    let sc: Vec<Vec<usize>> = bs.iter().map(succs).collect();
    if n > 0 {
        state[0] = 1;
    }
    while let Some((b, i)) = stack.pop() {
        if i < sc[b].len() {
            stack.push((b, i + 1));
            let t = sc[b][i];
            if state[t] == 0 {
                state[t] = 1;
                stack.push((t, 0));
            } else if state[t] == 1 {
                back.push((b, t));
            }
        } else {
            state[b] = 2;
            post.push(b);
        }
    }
    post.reverse();
    let mut preds = vec![vec![]; n];
    for (b, s) in sc.iter().enumerate() {
        if state[b] == 2 {
            for t in s {
                preds[*t].push(b);
            }
        }
    }
    let mut loops: Vec<Loop> = vec![];
    let mut head = vec![None; n];
    back.sort();
    back.dedup();
    for (b, h) in back {
        let li = match head[h] {
            Some(l) => l,
            None => {
                let mut body = vec![false; n];
                body[h] = true;
                loops.push(Loop { header: h, body });
                head[h] = Some(loops.len() - 1);
                loops.len() - 1
            }
        };
        let mut w = vec![b];
        while let Some(x) = w.pop() {
            if !loops[li].body[x] {
                loops[li].body[x] = true;
                w.extend(&preds[x]);
            }
        }
    }
    // Reverse post-order in which every loop's blocks are contiguous: visit
    // loop exits first in the depth-first search (they end up later).
    let order = {
        let mut seen = vec![false; n];
        let mut post = vec![];
        fn depth(loops: &[Loop], b: usize) -> usize {
            loops.iter().filter(|l| l.body[b]).count()
        }
        let mut stack: Vec<(usize, Vec<usize>, usize)> = vec![];
        if n > 0 {
            seen[0] = true;
            stack.push((0, sorted(&sc[0], &loops), 0));
        }
        fn sorted(s: &[usize], loops: &[Loop]) -> Vec<usize> {
            let mut v = s.to_vec();
            v.sort_by_key(|b| depth(loops, *b));
            v
        }
        while let Some((b, s, i)) = stack.pop() {
            if i < s.len() {
                let t = s[i];
                stack.push((b, s, i + 1));
                if !seen[t] {
                    seen[t] = true;
                    stack.push((t, sorted(&sc[t], &loops), 0));
                }
            } else {
                post.push(b);
            }
        }
        post.reverse();
        post
    };
    let mut rpo = vec![usize::MAX; n];
    for (i, b) in order.iter().enumerate() {
        rpo[*b] = i;
    }
    // Liveness; a local whose address is taken stays live until it is dead.
    let mut addr = vec![false; nl];
    let mut uses: Vec<Vec<(usize, u8)>> = vec![vec![]; n]; // in order: (local, 0 use, 1 def, 2 dead)
    for (bi, b) in bs.iter().enumerate() {
        let u = &mut uses[bi];
        for s in &b.s {
            match s {
                St::Assign(p, r, _) => {
                    rv_uses(r, u, &mut addr);
                    if p.proj.is_empty() {
                        u.push((p.local, 1));
                    } else {
                        pl_use(p, u);
                    }
                }
                St::SetDiscr(p, _) => pl_use(p, u),
                St::Dead(l) => u.push((*l, 2)),
                St::Live(l) => u.push((*l, 2)),
                St::Assume(o) => op_use(o, u),
                St::Nop | St::Calm => {}
            }
        }
        match &b.t {
            Tm::Switch(o, _, _) => op_use(o, u),
            Tm::Drop(p, _) => pl_use(p, u),
            Tm::Call { f, args, dst, .. } => {
                if let Callee::Op(o) = f {
                    op_use(o, u);
                }
                for a in args {
                    op_use(a, u);
                }
                if dst.proj.is_empty() {
                    u.push((dst.local, 1));
                } else {
                    pl_use(dst, u);
                }
            }
            Tm::Assert { cond, msg, .. } => {
                op_use(cond, u);
                match msg {
                    Msg::Bounds(a, b) | Msg::Overflow(_, a, b) => {
                        op_use(a, u);
                        op_use(b, u);
                    }
                    _ => {}
                }
            }
            Tm::Ret => u.push((0, 0)),
            _ => {}
        }
    }
    let mut live = vec![vec![false; nl]; n];
    loop {
        let mut ch = false;
        for b in order.iter().rev() {
            let mut cur = vec![false; nl];
            for t in &sc[*b] {
                for i in 0..nl {
                    cur[i] |= live[*t][i];
                }
            }
            for (l, k) in uses[*b].iter().rev() {
                cur[*l] = *k == 0;
            }
            if cur != live[*b] {
                live[*b] = cur;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    for i in 0..nl {
        if addr[i] {
            for b in 0..n {
                live[b][i] = true;
            }
        }
    }
    // Drop flags: unnamed bools that are only assigned constants and only
    // decide whether to drop something.
    let mut df = vec![false; nl];
    for l in 0..nl {
        if tys[locals[l]].k != TyK::Bool || names.contains_key(&l) || addr[l] {
            continue;
        }
        let mut ok = true;
        let mut sw = 0;
        for b in bs {
            for s in &b.s {
                if let St::Assign(p, r, _) = s {
                    if p.local == l && !matches!(r, Rv::Use(Op::Const(..))) {
                        ok = false;
                    }
                    let mut u = vec![];
                    rv_uses(r, &mut u, &mut vec![false; nl]);
                    if u.iter().any(|x| x.0 == l) {
                        ok = false;
                    }
                }
            }
            match &b.t {
                Tm::Switch(Op::Copy(p), _, o) | Tm::Switch(Op::Move(p), _, o) if p.local == l => {
                    sw += 1;
                    let mut t = *o;
                    for _ in 0..3 {
                        if let Tm::Goto(x) = bs[t].t {
                            t = x;
                        }
                    }
                    if !matches!(bs[t].t, Tm::Drop(..)) {
                        ok = false;
                    }
                }
                Tm::Call { args, .. } => {
                    let mut u = vec![];
                    for a in args {
                        op_use(a, &mut u);
                    }
                    if u.iter().any(|x| x.0 == l) {
                        ok = false;
                    }
                }
                _ => {}
            }
        }
        df[l] = ok && sw > 0;
    }
    Cfg { rpo, order, head, loops, live, dropflag: df }
}
fn pl_use(p: &Pl, u: &mut Vec<(usize, u8)>) {
    u.push((p.local, 0));
    for e in &p.proj {
        if let Pj::Index(l) = e {
            u.push((*l, 0));
        }
    }
}
fn op_use(o: &Op, u: &mut Vec<(usize, u8)>) {
    if let Op::Copy(p) | Op::Move(p) = o {
        pl_use(p, u);
    }
}
fn rv_uses(r: &Rv, u: &mut Vec<(usize, u8)>, addr: &mut Vec<bool>) {
    match r {
        Rv::Use(o) | Rv::Un(_, o) | Rv::Cast(_, o, _) | Rv::Repeat(o, _) => op_use(o, u),
        Rv::Ref(_, p) | Rv::Addr(_, p) => {
            pl_use(p, u);
            if !p.proj.iter().any(|e| matches!(e, Pj::Deref)) {
                addr[p.local] = true;
            }
        }
        Rv::Bin(_, a, b) | Rv::CBin(_, a, b) => {
            op_use(a, u);
            op_use(b, u);
        }
        Rv::Discr(p) | Rv::Len(p) => pl_use(p, u),
        Rv::AggArray(_, v) | Rv::AggTuple(v) | Rv::AggAdt(_, _, v) | Rv::AggClosure(_, v) | Rv::AggPtr(v) => {
            for o in v {
                op_use(o, u);
            }
        }
        Rv::Other => {}
    }
}

/// A function that calls a method of its argument forever.
pub fn add_loop(p: &mut Prog, method: usize) -> usize {
    let (args, ret) = p.fns[method].sig.clone();
    let rf = args[0];
    let TyK::Ref(obj, _) = p.tys[rf].k else { panic!("not a method") };
    let locals = vec![ret, obj, rf, ret];
    let pl = |l: usize| Pl { local: l, proj: vec![] };
    let blocks = vec![
        Block { s: vec![], t: Tm::Goto(1), loc: 0 },
        Block {
            s: vec![St::Calm, St::Assign(pl(2), Rv::Ref(true, pl(1)), 0)],
            t: Tm::Call { f: Callee::Fn(method), args: vec![Op::Move(pl(2))], dst: pl(3), target: 2 },
            loc: 0,
        },
        Block { s: vec![St::Dead(2), St::Dead(3)], t: Tm::Goto(1), loc: 0 },
    ];
    let names = HashMap::new();
    let mut cfg = cfg(&blocks, locals.len(), &names, &locals, &p.tys);
    for l in cfg.live.iter_mut() {
        l[1] = true;
    }
    let f = Fun {
        name: format!("any number of {}", p.fns[method].name),
        path: format!("loop {}", p.fns[method].path),
        krate: "ext4_view".into(),
        kind: String::new(),
        intr: String::new(),
        tc: false,
        targs: vec![],
        sig: (vec![obj], ret),
        body: Some(Body { argc: 1, spread: -1, span: String::new(), locals, names, blocks, cfg }),
    };
    p.fns.push(f);
    p.fns.len() - 1
}
