//! The runner's main loop: seeds to plans to executions to verdicts; minimisation; replay.
use crate::ctx;
use crate::gram::*;
use crate::rng::{hash_str, mix, Rng};
use crate::run::{self, *};
use crate::hist;
use crate::sexp::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::time::Instant;

#[derive(Clone)]
pub enum AnyPlan {
    Parse(Plan), Hist(hist::HPlan),
    /// Plans one after the other in one process, for failures that depend on what the process did before.
    Session(Vec<AnyPlan>),
}

impl AnyPlan {
    fn sx(&self) -> S { match self { AnyPlan::Parse(p) => p.sx(), AnyPlan::Hist(p) => p.sx(), AnyPlan::Session(v) => t_("session", v.iter().map(|p| p.sx()).collect()) } }
    fn of(s: &S) -> AnyPlan {
        match s.tag() { "plan" => AnyPlan::Parse(Plan::of(s)), "session" => AnyPlan::Session(s.rest().iter().map(AnyPlan::of).collect()), _ => AnyPlan::Hist(hist::HPlan::of(s)) }
    }
    /// Violations, the same plan with the schedule that was executed spelled out, trace hash.
    fn check(&self, st: &mut Stats) -> (Vec<Bad>, AnyPlan, u64) {
        match self {
            AnyPlan::Parse(p) => { let (v, g, t) = run::check(p, st); (v, AnyPlan::Parse(explicit(p, &g)), t) }
            AnyPlan::Hist(p) => { let (v, q, t) = hist::check(p, st); (v, AnyPlan::Hist(q), t) }
            AnyPlan::Session(ps) => {
                let (mut v, mut tr) = (vec![], 0u64);
                for p in ps { let (b, _, t) = p.check(st); v.extend(b); tr = mix(tr, t); }
                (v, self.clone(), tr)
            }
        }
    }
    fn shrink(&self) -> Vec<AnyPlan> {
        match self {
            AnyPlan::Parse(p) => run::shrink(p).into_iter().map(AnyPlan::Parse).collect(),
            AnyPlan::Hist(p) => hist::shrink(p).into_iter().map(AnyPlan::Hist).collect(),
            AnyPlan::Session(ps) => {
                let n = ps.len();
                if n == 1 { return vec![ps[0].clone()] }
                let mut v = vec![];
                let mut c = n / 2;
                // Long ones lose large pieces first.
                while c > 0 && n / c <= 128 {
                    let mut i = 0;
                    while i < n { let mut q = ps.clone(); q.drain(i..(i + c).min(n)); if !q.is_empty() { v.push(AnyPlan::Session(q)); } i += c; }
                    c /= 2;
                }
                if n <= 4 { for i in 0..n { for s in ps[i].shrink() { let mut q = ps.clone(); q[i] = s; v.push(AnyPlan::Session(q)); } } }
                v
            }
        }
    }
    fn grams(&self) -> BTreeSet<usize> {
        match self { AnyPlan::Parse(p) => p.tasks.iter().flatten().chain(p.subs.iter()).map(|o| o.g).collect(), AnyPlan::Session(v) => v.iter().flat_map(|p| p.grams()).collect(), _ => BTreeSet::new() }
    }
}

fn arg(args: &[String], k: &str) -> Option<String> { args.iter().position(|x| x == k).map(|i| args[i + 1].clone()) }

pub fn make_plan(prop: &str, seed: u64, gids: &[usize]) -> Option<AnyPlan> {
    let mut r = Rng::new(seed);
    if let Some(h) = hist::plan(prop, &mut r, seed) { return Some(AnyPlan::Hist(h)) }
    Gen { r, gids, prop }.plan(seed).map(AnyPlan::Parse)
}

pub fn main(grams: &str, table: Table) {
    let args: Vec<String> = std::env::args().collect();
    crate::alloc::map_texts();
    let mut world = World::new();
    for line in grams.lines().filter(|x| !x.trim().is_empty()) { let g = Gram::of(&S::parse(line)); world.insert(g.id, g); }
    set_sys(Sys { world, table });
    if std::env::var_os("OAKSIM_DEBUG").is_none() { std::panic::set_hook(Box::new(|_| {})); }
    // A deep stack: an accepted grammar that recurses without end is to run into its budget, not into the guard page.
    let code = std::thread::Builder::new().stack_size(2 << 30).spawn(move || {
        if let Some(f) = arg(&args, "--last") { run::set_last(&f); }
        if arg(&args, "--session").is_some() { session(&args) }
        else if let Some(f) = arg(&args, "--candidates") { candidates(&f, &arg(&args, "--out").unwrap()) }
        else if let Some(f) = arg(&args, "--replay") { replay(&f, &arg(&args, "--prop").unwrap()) } else { explore(&args) }
    }).unwrap().join().unwrap_or(3);
    std::process::exit(code);
}

fn replay(file: &str, prop: &str) -> i32 {
    let s = S::parse(&std::fs::read_to_string(file).expect("replay file"));
    let p = AnyPlan::of(s.field("case").expect("case").rest().first().unwrap());
    let mut st = Stats::default();
    let (v, _, t) = p.check(&mut st);
    let mut code = 0;
    for b in v.iter().filter(|b| b.prop == prop) { println!("FOUND {} {}: {}", b.prop, b.kind, b.msg); code = 1; }
    println!("TRACE {:016x}", t);
    code
}

/// Writes every one-step simplification of a replay file (for failures that end the process).
fn candidates(file: &str, dir: &str) -> i32 {
    let s = S::parse(&std::fs::read_to_string(file).expect("replay file"));
    let p = AnyPlan::of(s.field("case").expect("case").rest().first().unwrap());
    for (i, c) in p.shrink().into_iter().enumerate() {
        let r = t_("replay", s.rest().iter().map(|x| if x.tag() == "case" { t_("case", vec![c.sx()]) } else { x.clone() }).collect());
        std::fs::write(format!("{}/{}", dir, i), r.to_string()).unwrap();
    }
    0
}

fn minimise(p: AnyPlan, prop: &str, kind: &str, secs: f64) -> (AnyPlan, u64) {
    let t0 = Instant::now();
    let mut cur = p;
    let mut tried = 0u64;
    let mut st = Stats::default();
    'outer: loop {
        let cands = cur.shrink();
        for c in cands {
            if t0.elapsed().as_secs_f64() > secs { break 'outer }
            tried += 1;
            let (v, q, _) = c.check(&mut st);
            if v.iter().any(|b| b.prop == prop && b.kind == kind) { let _ = q; cur = c; continue 'outer }
        }
        break
    }
    (cur, tried)
}

fn explore(args: &[String]) -> i32 {
    let prop = arg(args, "--prop").unwrap();
    let seed: u64 = arg(args, "--seed").unwrap().parse().unwrap();
    let worker: u64 = arg(args, "--worker").unwrap().parse().unwrap();
    let runs: u64 = arg(args, "--runs").unwrap().parse().unwrap();
    let secs: f64 = arg(args, "--secs").unwrap().parse().unwrap();
    let start: u64 = arg(args, "--start").map_or(0, |x| x.parse().unwrap());
    let out = arg(args, "--out").unwrap();
    let dump = arg(args, "--dump");
    let mut crumb = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{}.crumb", out)).unwrap();
    let t0 = Instant::now();
    let gids: Vec<usize> = sys().table.keys().cloned().collect();
    let mut st = Stats::default();
    let mut seen: BTreeSet<u64> = BTreeSet::new();
    let mut found: BTreeSet<String> = BTreeSet::new();
    let mut samples = vec![];
    let mut other: BTreeMap<String, u64> = BTreeMap::new();
    let mut nontrivial = 0u64;
    let mut dumpf = dump.map(|d| std::fs::File::create(d).unwrap());
    let mut idx = start;
    let mut res = String::new();
    while idx < runs && t0.elapsed().as_secs_f64() < secs {
        use std::os::unix::fs::FileExt;
        let _ = crumb.write_at(&idx.to_le_bytes(), 0);
        let s = mix(mix(seed, hash_str(&prop)), mix(worker, idx));
        idx += 1;
        let p = match make_plan(&prop, s, &gids) { Some(p) => p, None => { st.add("plans given up (too expensive)", 1); continue } };
        let (v, q, t) = p.check(&mut st);
        if let Some(f) = &mut dumpf { let _ = writeln!(f, "{} {:016x} {}", idx - 1, t, v.len()); }
        if t != 0 { nontrivial += 1; }
        let fresh = seen.insert(t);
        if fresh && samples.len() < 3 && (idx - start) % 97 == 5 { samples.push(p.sx().to_string().chars().take(4000).collect::<String>()); }
        for b in &v { if b.prop != prop { *other.entry(format!("{} {}", b.prop, b.kind)).or_default() += 1; } }
        if let Some(b) = v.iter().find(|b| b.prop == prop) {
            if !found.contains(&b.kind) {
                // The executed schedule, spelled out, has to fail the same way; minimise from there.
                let mut st2 = Stats::default();
                let from = if q.check(&mut st2).0.iter().any(|c| c.prop == prop && c.kind == b.kind) { q } else { make_plan(&prop, s, &gids).unwrap() };
                let (m, tried) = minimise(from, &prop, &b.kind, 15.0);
                let (v2, _, _) = m.check(&mut st2);
                let msg = v2.iter().find(|c| c.prop == prop && c.kind == b.kind).map_or(b.msg.clone(), |c| c.msg.clone());
                let rep = replay_text(&prop, &b.kind, &msg, s, tried, &m);
                let raw = replay_text(&prop, &b.kind, &b.msg, s, 0, &make_plan(&prop, s, &gids).unwrap());
                // Written at once: a later run may end the process.
                let f = format!("{}.replay{}-{}", out, start, found.len());
                std::fs::write(&f, rep).unwrap();
                std::fs::write(format!("{}.raw", f), raw).unwrap();
                let mut l = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}.found", out)).unwrap();
                l.write_all(format!("{}\t{}\t{}\t{}\n", b.kind, f, msg.replace(['\n', '\t'], " "), idx - 1).as_bytes()).unwrap();
                found.insert(b.kind.clone());
                if found.len() >= 3 { break }
            }
        }
    }
    for (k, n) in &st.m { res.push_str(&format!("stat\t{}\t{}\n", k, n)); }
    for (k, n) in &other { res.push_str(&format!("other\t{}\t{}\n", k, n)); }
    for s in &samples { res.push_str(&format!("sample\t{}\n", s.replace('\n', " ").replace('\t', " "))); }
    res.push_str(&format!("stat\tdistinct traces\t{}\nstat\truns with a trace\t{}\nend\t{}\t{:.3}\n", seen.len(), nontrivial, idx, t0.elapsed().as_secs_f64()));
    std::fs::write(&out, res).unwrap();
    let _ = ctx::block as fn();
    0
}

fn replay_text(prop: &str, kind: &str, msg: &str, seed: u64, tried: u64, p: &AnyPlan) -> String {
    let gs: Vec<S> = needed(&p.grams()).into_iter().map(|g| sys().world[&g].sx()).collect();
    t_("replay", vec![f_("prop", a(prop)), f_("kind", a(kind)), f_("message", a(msg)), f_("seed", a(seed)), f_("minimised", a(tried)), t_("grams", gs), t_("case", vec![p.sx()])]).to_string()
}

/// Writes the plans of the runs `lo..=hi` of a worker as one case.
fn session(args: &[String]) -> i32 {
    let prop = arg(args, "--prop").unwrap();
    let num = |k: &str| -> u64 { arg(args, k).unwrap().parse().unwrap() };
    let (seed, worker, lo, hi) = (num("--seed"), num("--worker"), num("--session"), num("--to"));
    let gids: Vec<usize> = sys().table.keys().cloned().collect();
    let ps: Vec<AnyPlan> = (lo..=hi).filter_map(|i| make_plan(&prop, mix(mix(seed, hash_str(&prop)), mix(worker, i)), &gids)).collect();
    std::fs::write(arg(args, "--out").unwrap(), replay_text(&prop, &arg(args, "--kind").unwrap(), "", seed, 0, &AnyPlan::Session(ps))).unwrap();
    0
}

fn t_(k: &str, v: Vec<S>) -> S { t(k, v) }
fn f_(k: &str, v: S) -> S { t(k, vec![v]) }

/// The grammars a case needs: those it parses with and the ones they call.
pub fn needed(gs: &BTreeSet<usize>) -> BTreeSet<usize> {
    let mut s = gs.clone();
    loop {
        let more: BTreeSet<usize> = s.iter().flat_map(|g| sys().world[g].exts()).collect();
        let n = s.len();
        s.extend(more);
        if s.len() == n { return s }
    }
}
