//! Abstract interpretation of ext4-view's MIR.
mod ck;
mod cut;
mod drive;
mod exec;
mod json;
mod memo;
mod merge;
mod models;
mod names;
mod prog;
mod props;
mod rules;
mod solve;
mod state;
mod term;
use exec::*;
use state::*;
use std::collections::BTreeMap;
use term::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let h = std::thread::Builder::new().stack_size(8 << 30).spawn(move || run(&a)).unwrap();
    h.join().unwrap();
}
fn run(a: &[String]) {
    let t0 = std::time::Instant::now();
    let s = std::fs::read(&a[1]).expect("mir");
    let j = json::parse(&s);
    let mut p = prog::load(&j);
    let mut classes: BTreeMap<String, (usize, usize, usize)> = BTreeMap::new();
    for (name, new, next) in [
        ("Extents", "ext4_view::iters::extents::Extents::new", "<ext4_view::iters::extents::Extents as std::iter::Iterator>::next"),
        ("ExtentsBlocks", "ext4_view::iters::file_blocks::extents_blocks::ExtentsBlocks::new", "<ext4_view::iters::file_blocks::extents_blocks::ExtentsBlocks as std::iter::Iterator>::next"),
        ("BlockMap", "ext4_view::iters::file_blocks::block_map::BlockMap::new", "<ext4_view::iters::file_blocks::block_map::BlockMap as std::iter::Iterator>::next"),
        ("FileBlocks", "ext4_view::iters::file_blocks::FileBlocks::new", "<ext4_view::iters::file_blocks::FileBlocks as std::iter::Iterator>::next"),
        ("ReadDir", "ext4_view::ReadDir::new", "<ext4_view::ReadDir as std::iter::Iterator>::next"),
    ] {
        let at = |n: &str| p.fns.iter().position(|f| f.name == n && f.body.is_some());
        if let (Some(a), Some(b)) = (at(new), at(next)) {
            let l = prog::add_loop(&mut p, b);
            classes.insert(name.to_string(), (a, b, l));
        }
    }
    eprintln!("loaded {} fns {:.2}s", p.fns.len(), t0.elapsed().as_secs_f64());
    let mut cfg = rules::Cfg::default();
    cfg.verbose = std::env::var("VF_VERBOSE").is_ok();
    cfg.panics = true;
    merge::WIDE.with(|w| w.set(p.tys.iter().any(|t| matches!(t.k, prog::TyK::Int { bits, .. } if bits > 64))));
    let e = Eng::new(&p, cfg);
    if let Ok(t) = std::env::var("VF_TRACE") {
        e.trace.set(t.parse().unwrap_or(0));
    }
    let mut base: Option<State> = None;
    let base_of = |base: &mut Option<State>| -> State {
        if base.is_none() {
            let s = drive::load(&e).expect("load never succeeds");
            let fx = drive::settled(&e, s);
            if std::env::var("VF_BASE").is_ok() {
                for (c, v) in fx.st.mem.iter() {
                    eprintln!("cell {:x}: {}", c & 0xffff, v.show());
                }
                for x in fx.st.facts.0.iter() {
                    eprintln!("   {}", x.show());
                }
            }
            *base = Some(fx.st);
            e.loaded.set(true);
        }
        base.clone().unwrap()
    };
    cut::setup(&e);
    let mut missing: Vec<String> = vec![];
    for root in &a[2..] {
        let t1 = std::time::Instant::now();
        let n0 = e.log.borrow().len();
        if root == "rule:C20" {
            props::conversion(&e);
            continue;
        }
        if let Some(n) = root.strip_prefix("class:") {
            let b = base_of(&mut base);
            let Some(&(new, next, l)) = classes.get(n) else {
                missing.push(root.clone());
                continue;
            };
            *e.uncut.borrow_mut() = [new, next].into_iter().collect();
            let n = cut::run_class(&e, new, l, &b);
            e.uncut.borrow_mut().clear();
            eprintln!("{root}: {n} starts, {} obligations, {:.2}s", e.log.borrow().len() - n0, t1.elapsed().as_secs_f64());
            continue;
        }
        if let Some(n) = root.strip_prefix("unit:") {
            let b = base_of(&mut base);
            let Some(f) = e.p.fns.iter().position(|f| f.name.ends_with(n) && f.body.is_some()) else {
                missing.push(root.clone());
                continue;
            };
            let out = cut::run_fn(&e, f, &b);
            eprintln!("{root}: {} exits, {} obligations, {:.2}s", out.len(), e.log.borrow().len() - n0, t1.elapsed().as_secs_f64());
            for (s, v) in &out {
                eprintln!("  exit {}{} [{} facts]", if s.imp { "IMP " } else { "" }, v.show().chars().take(400).collect::<String>(), s.facts.0.len());
            }
            continue;
        }
        let f = drive::root(&e, root);
        const OBJ: [&str; 4] = ["ext4_view::Ext4", "ext4_view::File", "ext4_view::ReadDir", "ext4_view::DirEntry"];
        let needs = p.fns[f].sig.0.iter().any(|t| match p.tys[*t].k {
            prog::TyK::Ref(to, _) => OBJ.contains(&p.tys[to].name.as_str()),
            _ => OBJ.contains(&p.tys[*t].name.as_str()),
        });
        let out = if needs {
            let b = base_of(&mut base);
            drive::run_fs(&e, root, &b)

        } else {
            drive::run(&e, root, State::new(), &[])
        };
        if std::env::var("VF_W").is_ok() {
            let w = e.weights.borrow();
            let mut v: Vec<_> = w.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (f, n) in v.iter().take(120) {
                eprintln!("  weight {n} {}", p.fns[**f].name);
            }
        }
        eprintln!("{}: {} exits, {} obligations, {:.2}s", root, out.len(), e.log.borrow().len() - n0, t1.elapsed().as_secs_f64());
        for (s, v) in &out {
            eprintln!("  exit {}{} [{} facts]", if s.imp { "IMP " } else { "" }, v.show().chars().take(400).collect::<String>(), s.facts.0.len());
        }
    }
    if let Ok(path) = std::env::var("VF_OUT") {
        report(&e, &path, &missing);
    }
    let mut agg: BTreeMap<(String, String), (u64, u64, u64, String)> = BTreeMap::new();
    for o in e.log.borrow().iter() {
        let x = agg.entry((o.rule.to_string(), o.key.clone())).or_default();
        x.0 += 1;
        if !o.ok {
            if o.imp {
                x.2 += 1;
            } else {
                x.1 += 1;
            }
            if x.3.is_empty() || (!o.imp && x.1 == 1) {
                x.3 = format!("{}{}", if o.imp { "(imprecise) " } else { "" }, o.text.clone());
            }
        }
    }
    for ((r, k), (n, bad, und, t)) in &agg {
        if *bad > 0 || *und > 0 {
            println!("{r} {k}: {n} checked, {bad} violated, {und} undecided\n    {t}");
        }
    }
    println!("{} obligation keys", agg.len());
    for (k, n) in e.unmodelled.borrow().iter() {
        println!("unmodelled {n} {k}");
    }
    eprintln!("memo {:?}", e.memo_n.get());
    if std::env::var("VF_PROF").is_ok() {
        eprintln!("STATS {:?}", solve::STATS.with(|s| *s.borrow()));
        let pr = e.prof.borrow();
        let mut v: Vec<_> = pr.iter().collect();
        v.sort_by(|a, b| b.1.1.partial_cmp(&a.1.1).unwrap());
        for (f, (n, t)) in v.iter().take(40) {
            println!("{:8.2}s {:6} {}", t, n, p.fns[**f].name);
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// The obligations by rule and key, for the rules written on top.
fn report(e: &Eng, path: &str, missing: &[String]) {
    let mut agg: BTreeMap<(String, String), (u64, u64, u64, String)> = BTreeMap::new();
    for o in e.log.borrow().iter() {
        let x = agg.entry((o.rule.to_string(), o.key.clone())).or_default();
        x.0 += 1;
        if !o.ok {
            if o.imp { x.2 += 1 } else { x.1 += 1 }
            if x.3.is_empty() || (!o.imp && x.1 == 1) {
                x.3 = o.text.clone();
            }
        }
    }
    let mut o = String::from("{\"obs\":[");
    for (i, ((r, k), (n, bad, und, t))) in agg.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&format!("\n{{\"rule\":{},\"key\":{},\"n\":{n},\"bad\":{bad},\"und\":{und},\"text\":{}}}", esc(r), esc(k), esc(t)));
    }
    o.push_str("],\"unmodelled\":[");
    o.push_str(&e.unmodelled.borrow().keys().map(|k| esc(k)).collect::<Vec<_>>().join(","));
    o.push_str("],\"missing\":[");
    o.push_str(&missing.iter().map(|k| esc(k)).collect::<Vec<_>>().join(","));
    o.push_str("],\"visited\":[");
    o.push_str(&e.visited.borrow().iter().map(|f| esc(&e.p.fns[*f].name)).collect::<Vec<_>>().join(","));
    o.push_str("]}");
    std::fs::write(path, o).expect("report");
}
