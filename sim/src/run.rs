//! Plans of simulated parses, their execution, and the oracles over what was recorded.
use crate::ctx::*;
use crate::gram::*;
use crate::refi::{self, Give, RefOut};
use crate::rng::{mix, Rng};
use crate::sched::{self, Sched};
use crate::sexp::*;
use crate::stream::*;
use crate::val::*;
use oak_runtime::parse_state::{ParseResult, ParseState};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- the system under test

#[derive(Clone, Copy)]
pub struct RuleFns { pub recog: fn(SimStream) -> Outcome, pub parse: fn(SimStream) -> Outcome }
pub type Table = BTreeMap<usize, Vec<RuleFns>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class { Success, Partial, Failure, Unknown }

#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    pub ok: bool,
    pub data: bool,
    pub pos: usize,
    pub far: usize,
    pub expected: Vec<String>,
    pub val: Option<Val>,
    pub class: Class,
    pub report: Option<String>,
    pub req: usize,
}

/// Called by the glue with the final state of a parse: records it, then turns it into a result as a user does.
pub fn finish<T: ToVal>(st: ParseState<SimStream, T>) -> Outcome {
    let mut o;
    {
        let _h = H::new();
        let ok = !st.failed;
        o = Outcome {
            ok, data: st.data.is_some(), pos: st.current.real_pos(), far: st.farthest_read.real_pos(),
            expected: { let mut v: Vec<String> = st.expected.iter().map(|s| s.to_string()).collect(); v.sort(); v.dedup(); v },
            val: st.data.as_ref().map(|d| d.to_val()), class: Class::Unknown, report: None, req: st.current.source().max_req.get(),
        };
        // The parse is over. What turns its state into a result may sort in B-trees, which abort when memory runs out inside them.
        PARSE_ALLOCS.with(|c| c.set(ALLOCS.with(|c| c.get())));
        if ALLOC_AT.with(|c| c.get()) < u64::MAX - 2 { ALLOC_AT.with(|c| c.set(u64::MAX - 2)); }
        let sp = &st.current.source().spec;
        if ok && !sp.ends() && st.current.source().off[sp.delivered()] <= o.pos { return o }
    }
    let r = st.into_result();
    let (class, rep) = match &r {
        ParseResult::Success(_) => (Class::Success, None),
        ParseResult::Partial(_, e) => (Class::Partial, Some(format!("{:?}", e))),
        ParseResult::Failure(e) => (Class::Failure, Some(format!("{:?}", e))),
    };
    drop(r);
    o.class = class;
    o.report = rep;
    o
}

// ---------------------------------------------------------------- plans

#[derive(Clone, Debug, PartialEq)]
pub struct OpSpec {
    pub g: usize, pub r: usize, pub parse: bool, pub src: usize,
    pub fault: Option<(FK, u64)>,
    /// (kind, at, index in `subs`): a nested parse started at that stream operation or action.
    pub nests: Vec<(FK, u64, usize)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub seed: u64,
    pub hash: u64,
    pub srcs: Vec<SrcSpec>,
    pub tasks: Vec<Vec<OpSpec>>,
    pub subs: Vec<OpSpec>,
    pub sched: Sched,
    /// Also run every operation alone and compare.
    pub solo: bool,
    /// Also measure what repeated operations leave allocated.
    pub leak: bool,
    /// Also run everything under these hash seeds.
    pub hashes: Vec<u64>,
}

impl OpSpec {
    pub fn sx(&self) -> S {
        let mut v = vec![a(self.g), a(self.r), a(if self.parse { "parse" } else { "recognize" }), a(self.src)];
        if let Some((k, n)) = self.fault { v.push(t("fault", vec![a(k.name()), a(n)])); }
        for (k, n, s) in &self.nests { v.push(t("nest", vec![a(k.name()), a(n), a(s)])); }
        t("op", v)
    }
    pub fn of(s: &S) -> OpSpec {
        let r = s.rest();
        OpSpec {
            g: r[0].num(), r: r[1].num(), parse: r[2].atom() == "parse", src: r[3].num(),
            fault: s.rest()[4..].iter().find(|x| x.tag() == "fault").map(|x| (FK::of(x.rest()[0].atom()), x.rest()[1].num())),
            nests: s.rest()[4..].iter().filter(|x| x.tag() == "nest").map(|x| (FK::of(x.rest()[0].atom()), x.rest()[1].num(), x.rest()[2].num())).collect(),
        }
    }
}

impl Plan {
    pub fn sx(&self) -> S {
        t("plan", vec![
            t("seed", vec![a(self.seed)]), t("hash", vec![a(self.hash)]),
            t("srcs", self.srcs.iter().map(|s| s.sx()).collect()),
            t("tasks", self.tasks.iter().map(|v| l(v.iter().map(|o| o.sx()).collect())).collect()),
            t("subs", self.subs.iter().map(|o| o.sx()).collect()),
            t("sched", vec![match &self.sched {
                Sched::Inline => a("inline"),
                Sched::Random { seed, mean } => t("random", vec![a(seed), a(mean)]),
                Sched::Pct { seed, mean } => t("pct", vec![a(seed), a(mean)]),
                Sched::Explicit(v) => t("explicit", v.iter().map(|(x, n)| l(vec![a(x), a(n)])).collect()),
            }]),
            t("opts", vec![a(self.solo as u8), a(self.leak as u8)]),
            t("hashes", self.hashes.iter().map(a).collect()),
        ])
    }
    pub fn of(s: &S) -> Plan {
        let sc = s.f1("sched");
        let opts = s.field("opts").unwrap().rest();
        Plan {
            seed: s.f1("seed").num(), hash: s.f1("hash").num(),
            srcs: s.field("srcs").unwrap().rest().iter().map(SrcSpec::of).collect(),
            tasks: s.field("tasks").unwrap().rest().iter().map(|v| v.list().iter().map(OpSpec::of).collect()).collect(),
            subs: s.field("subs").unwrap().rest().iter().map(OpSpec::of).collect(),
            sched: match sc {
                S::A(_) => Sched::Inline,
                S::L(_) => match sc.tag() {
                    "random" => Sched::Random { seed: sc.rest()[0].num(), mean: sc.rest()[1].num() },
                    "pct" => Sched::Pct { seed: sc.rest()[0].num(), mean: sc.rest()[1].num() },
                    _ => Sched::Explicit(sc.rest().iter().map(|x| (x.list()[0].num(), x.list()[1].num())).collect()),
                },
            },
            solo: opts[0].atom() == "1", leak: opts[1].atom() == "1",
            hashes: s.field("hashes").unwrap().rest().iter().map(|x| x.num()).collect(),
        }
    }
}

// ---------------------------------------------------------------- execution

#[derive(Clone, Debug, PartialEq)]
pub enum End { Ok(Outcome), Cancel(FK), Stall, Budget(String), Panic(String) }
impl End {
    pub fn name(&self) -> String {
        match self { End::Ok(o) => format!("returned({})", if o.ok { "success" } else { "failure" }), End::Cancel(k) => format!("unwound({})", k.name()),
            End::Stall => "waits forever".into(), End::Budget(w) => format!("budget({})", w), End::Panic(m) => format!("panicked({})", m) }
    }
}

#[derive(Clone, Debug)]
pub struct Rep {
    pub spec: OpSpec,
    pub end: End,
    pub log: Vec<Call>,
    pub reqs_at: Vec<u64>,
    pub max_req: usize,
    pub ops: [u64; 5],
    pub n_ops: u64, pub n_actions: u64, pub n_allocs: u64, pub blocks: u64,
    pub fired: bool,
    pub awaits: u64,
    pub trace: u64,
    pub live_tok: i64, pub live_stream: i64, pub refs: usize, pub text_ok: bool,
    pub nested: bool,
}

pub struct Sys { pub world: World, pub table: Table }
static SYS: std::sync::OnceLock<Sys> = std::sync::OnceLock::new();
pub fn sys() -> &'static Sys { SYS.get().expect("system") }
pub fn set_sys(s: Sys) { let _ = SYS.set(s); }

struct ExecCtx { place: usize, srcs: Vec<SrcSpec>, subs: Vec<OpSpec>, limits: Arc<Limits>, nested: RefCell<Vec<Rep>>, depth: Cell<usize> }
thread_local! { static CUR: RefCell<Option<Rc<ExecCtx>>> = const { RefCell::new(None) }; }

/// Budgets for each (grammar, rule, source, mode), from the reference evaluation.
#[derive(Default)]
pub struct Limits { pub m: BTreeMap<(usize, usize, bool, usize), (u64, u64, u64)> }
const WILD: (u64, u64, u64) = (20_000, 100_000, 20_000_000);

fn exec_op(cx: &Rc<ExecCtx>, op: &OpSpec, nested: bool) -> Rep {
    let h = H::new();
    let src = Source::new(&cx.srcs[op.src], cx.place + cx.depth.get().min(3));
    let f = { let rf = &sys().table[&op.g][op.r]; if op.parse { rf.parse } else { rf.recog } };
    let lim = cx.limits.m.get(&(op.g, op.r, op.parse, op.src)).cloned().unwrap_or(WILD);
    let mut fr = Frame::default();
    fr.req_limit = lim.0;
    fr.clone_limit = lim.1;
    fr.nests = op.nests.clone();
    match op.fault { Some((FK::Op, n)) => fr.fault_op = Some(n), Some((FK::Action, n)) => fr.fault_action = Some(n), _ => {} }
    FRAMES.with(|f| f.borrow_mut().push(fr));
    let (b0, lim0) = (BLOCKS.with(|c| c.get()), BLOCK_LIMIT.with(|c| c.get()));
    if !nested { 
        // Nested parses count as well.
        let more: u64 = cx.subs.iter().map(|s| cx.limits.m.get(&(s.g, s.r, s.parse, s.src)).map_or(WILD.2, |l| l.2)).fold(0, u64::saturating_add);
        BLOCK_LIMIT.with(|c| c.set(b0.saturating_add(lim.2).saturating_add(more)));
    }
    let (tok0, str0) = (LIVE_TOK.with(|c| c.get()), LIVE_STREAM.with(|c| c.get()));
    ALLOCS.with(|c| c.set(0));
    let armed = if let Some((FK::Alloc, n)) = op.fault { n } else { u64::MAX - 2 };
    let a0 = ALLOC_AT.with(|c| c.replace(armed));
    let depth = IN.with(|c| c.replace(0));
    let r = catch_unwind(AssertUnwindSafe(|| f(src.start())));
    IN.with(|c| c.set(depth));
    // Parts of the standard library answer a failed allocation with a panic of their own.
    let starved = ALLOC_AT.with(|c| c.get()) == u64::MAX - 1;
    ALLOC_AT.with(|c| c.set(a0));
    let n_allocs = ALLOCS.with(|c| c.get()).min(PARSE_ALLOCS.with(|c| c.replace(u64::MAX)));
    BLOCK_LIMIT.with(|c| c.set(lim0));
    let blocks = BLOCKS.with(|c| c.get()) - b0;
    let fr = FRAMES.with(|f| f.borrow_mut().pop().unwrap());
    let end = match r {
        Ok(o) => End::Ok(o),
        Err(e) => {
            if let Some(c) = e.downcast_ref::<Cancel>() { End::Cancel(c.0) }
            else if starved { End::Cancel(FK::Alloc) }
            else if e.downcast_ref::<Stall>().is_some() { End::Stall }
            else if let Some(b) = e.downcast_ref::<Budget>() { End::Budget(b.0.to_string()) }
            else { End::Panic(e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or("?".into())) }
        }
    };
    let rep = Rep {
        spec: op.clone(), end, reqs_at: fr.call_reqs, log: fr.log, max_req: src.max_req.get(), ops: fr.ops, n_ops: fr.n_ops, n_actions: fr.n_actions, n_allocs, blocks,
        fired: fr.fired || starved, awaits: fr.awaits, trace: fr.trace,
        live_tok: LIVE_TOK.with(|c| c.get()) - tok0, live_stream: LIVE_STREAM.with(|c| c.get()) - str0,
        refs: (Rc::strong_count(&src) - 1) + (src.fm_refs() - 1), text_ok: src.text_is(&cx.srcs[op.src].text), nested,
    };
    drop(h);
    rep
}

fn run_nested(i: usize) {
    let cx = CUR.with(|c| c.borrow().clone());
    if let Some(cx) = cx {
        let allocs = ALLOCS.with(|c| c.get());
        let op = cx.subs[i].clone();
        cx.depth.set(cx.depth.get() + 1);
        let rep = exec_op(&cx, &op, true);
        cx.depth.set(cx.depth.get() - 1);
        ALLOCS.with(|c| c.set(allocs));
        let _h = H::new();
        cx.nested.borrow_mut().push(rep);
    }
}

fn run_list(cx: Rc<ExecCtx>, ops: &[OpSpec]) -> Vec<Rep> {
    let _h = H::new();
    CUR.with(|c| *c.borrow_mut() = Some(cx.clone()));
    NEST.with(|c| c.set(Some(run_nested)));
    let mut out = vec![];
    for op in ops {
        let r = exec_op(&cx, op, false);
        out.push(r);
        out.append(&mut cx.nested.borrow_mut());
    }
    CUR.with(|c| *c.borrow_mut() = None);
    out
}

fn cx(p: &Plan, lim: &Arc<Limits>, place: usize) -> Rc<ExecCtx> { Rc::new(ExecCtx { place: place * 4, srcs: p.srcs.clone(), subs: p.subs.clone(), limits: lim.clone(), nested: RefCell::new(vec![]), depth: Cell::new(0) }) }

/// Runs operations one after the other in a fresh thread with the given hash seed.
pub fn run_fresh(p: &Arc<Plan>, lim: &Arc<Limits>, ops: Vec<OpSpec>, hash: u64) -> Vec<Rep> {
    let (p, lim) = (p.clone(), lim.clone());
    std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        HASH_SEED.with(|c| c.set(hash));
        sched::reset_inline_clock();
        run_list(cx(&p, &lim, 12), &ops)
    }).expect("spawn").join().expect("solo thread")
}

pub struct Exec { pub reps: Vec<Vec<Rep>>, pub ran: Option<sched::Ran>, pub time: u64 }

static LAST: std::sync::OnceLock<String> = std::sync::OnceLock::new();
/// Every plan is written to this file before it is executed: the last one is the one that ended the process.
pub fn set_last(f: &str) { let _ = LAST.set(f.to_string()); }
pub fn note_last(s: impl FnOnce() -> S, grams: impl FnOnce() -> Vec<S>) {
    if let Some(f) = LAST.get() { std::fs::write(f, t("replay", vec![t("grams", grams()), t("case", vec![s()])]).to_string()).unwrap(); }
}

pub fn exec(p: &Arc<Plan>, lim: &Arc<Limits>) -> Exec {
    note_last(|| p.sx(), || {
        let gs: BTreeSet<usize> = p.tasks.iter().flatten().chain(p.subs.iter()).map(|o| o.g).collect();
        crate::driver::needed(&gs).into_iter().map(|g| sys().world[&g].sx()).collect()
    });
    if p.sched == Sched::Inline {
        sched::reset_inline_clock();
        let reps = p.tasks.iter().enumerate().map(|(i, t)| run_list(cx(p, lim, i), t)).collect();
        return Exec { reps, ran: None, time: sched::now() }
    }
    let out: Arc<Mutex<Vec<Vec<Rep>>>> = Arc::new(Mutex::new(vec![vec![]; p.tasks.len()]));
    let tasks: Vec<Box<dyn FnOnce() + Send>> = (0..p.tasks.len()).map(|i| {
        let (p, lim, out) = (p.clone(), lim.clone(), out.clone());
        Box::new(move || {
            HASH_SEED.with(|c| c.set(mix(p.hash, i as u64)));
            let r = run_list(cx(&p, &lim, i), &p.tasks[i]);
            let _h = H::new();
            SLICE.with(|c| c.set(u64::MAX));
            out.lock().unwrap()[i] = r;
        }) as Box<dyn FnOnce() + Send>
    }).collect();
    let ran = sched::run_tasks(&p.sched, tasks);
    let reps = std::mem::take(&mut *out.lock().unwrap());
    let time = ran.time;
    Exec { reps, ran: Some(ran), time }
}

// ---------------------------------------------------------------- oracles

#[derive(Clone, Debug)]
pub struct Bad { pub prop: &'static str, pub kind: String, pub msg: String }
pub fn bad(v: &mut Vec<Bad>, prop: &'static str, kind: &str, msg: String) {
    let msg = if msg.len() > 6000 { msg.chars().take(4000).collect::<String>() + " …" } else { msg };
    v.push(Bad { prop, kind: kind.to_string(), msg }) }

#[derive(Default, Clone)]
pub struct Stats { pub m: BTreeMap<String, u64> }
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) { if n > 0 { *self.m.entry(k.to_string()).or_default() += n; } }
    pub fn merge(&mut self, o: &Stats) { for (k, n) in &o.m { *self.m.entry(k.clone()).or_default() += n; } }
}

pub type RefKey = (usize, usize, bool, usize);
pub struct Refs { pub m: BTreeMap<RefKey, Result<RefOut, Give>>, pub items: Vec<Vec<char>>, pub offs: Vec<Vec<usize>> }

pub const REF_LIMIT: u64 = 60_000;

pub fn refs(p: &Plan) -> (Refs, Arc<Limits>) {
    let w = &sys().world;
    let items: Vec<Vec<char>> = p.srcs.iter().map(|s| s.text.chars().collect()).collect();
    let offs: Vec<Vec<usize>> = items.iter().map(|v| { let mut o = vec![0]; for c in v { let l = o[o.len() - 1] + c.len_utf8(); o.push(l); } o }).collect();
    let mut m = BTreeMap::new();
    let mut lim = Limits::default();
    for op in p.tasks.iter().flatten().chain(p.subs.iter()) {
        let k = (op.g, op.r, op.parse, op.src);
        if m.contains_key(&k) { continue }
        let base = if p.srcs[op.src].kind == SK::Str { 0 } else { p.srcs[op.src].base };
        let r = refi::eval(w, op.g, op.r, op.parse, &items[op.src], &offs[op.src], base, REF_LIMIT.max(12 * items[op.src].len() as u64));
        if let Ok(r) = &r { lim.m.insert(k, (2 * r.requests + 24, 32 * r.steps + 1024, 4000 * r.steps + 400_000)); }
        m.insert(k, r);
    }
    (Refs { m, items, offs }, Arc::new(lim))
}

/// The whole check of one plan: execute, then every oracle. Returns violations of all properties.
pub fn check(p: &Plan, st: &mut Stats) -> (Vec<Bad>, Vec<(usize, u64)>, u64) {
    let pa = Arc::new(p.clone());
    let (rf, lim) = refs(p);
    let ex = exec(&pa, &lim);
    let mut v = vec![];
    let mut trace = 0u64;
    st.add("runs", 1);
    st.add("simulated time", ex.time);
    if let Some(r) = &ex.ran { st.add("threaded runs", 1); st.add("context switches", r.switches); st.add("waits for locks", r.locks); for g in &r.grants { trace = mix(trace, g.0 as u64 ^ g.1 << 8); } }
    let texts: Vec<String> = p.srcs.iter().map(|s| s.text.clone()).collect();
    for i in &rf.items { if i.len() > 1000 { st.add(if i.len() > 30_000 { "inputs of over 30000 items" } else { "inputs of over 1000 items" }, 1); } }
    for (ti, reps) in ex.reps.iter().enumerate() {
        for (i, rep) in reps.iter().enumerate() {
            trace = mix(trace, rep.trace);
            stat_rep(rep, st, p, &rf);
            judge_one(p, rep, &rf, &mut v);
            judge_report(p, rep, &texts, &mut v);
            // The pair of parser and recognizer.
            if let Some(prev) = reps[..i].iter().rev().find(|q| !q.nested && !rep.nested && q.spec.g == rep.spec.g && q.spec.r == rep.spec.r && q.spec.src == rep.spec.src && q.spec.parse != rep.spec.parse) {
                if rep.spec.fault.is_none() && prev.spec.fault.is_none() { judge_pair(prev, rep, &mut v); st.add("parser/recognizer pairs", 1); }
            }
            // Repetitions of the same undisturbed parse.
            if rep.spec.fault.is_none() && !rep.nested {
                if let Some(prev) = reps[..i].iter().find(|q| !q.nested && q.spec.fault.is_none() && q.spec.g == rep.spec.g && q.spec.r == rep.spec.r && q.spec.src == rep.spec.src && q.spec.parse == rep.spec.parse) {
                    st.add("retries compared", 1);
                    if let Some(d) = differ(prev, rep) {
                        bad(&mut v, "C07", "retry", format!("task {}: parsing again from the start after {} differs: {}", ti, reps[..i].iter().map(|q| q.end.name()).collect::<Vec<_>>().join(", "), d));
                    }
                }
            }
        }
    }
    if p.solo {
        for (ti, reps) in ex.reps.iter().enumerate() {
            // Every parse (nested ones included) alone, in a thread of its own.
            let mut alone: BTreeMap<String, Rep> = BTreeMap::new();
            for rep in reps.iter() {
                let mut op = rep.spec.clone();
                op.nests.clear();
                // A fault is placed by counting operations, which nesting does not change.
                let key = op.sx().to_string();
                let so = alone.entry(key).or_insert_with(|| run_fresh(&pa, &lim, vec![op], mix(p.hash, ti as u64)).remove(0));
                st.add("parses compared with solo runs", 1);
                if let Some(d) = differ(so, rep) {
                    bad(&mut v, "C08", "solo", format!("task {}{}: g{}.r{} {} of source {} differs from the run alone: {}", ti, if rep.nested { " (nested)" } else { "" }, rep.spec.g, rep.spec.r, if rep.spec.parse { "parse" } else { "recognize" }, rep.spec.src, d));
                }
            }
        }
    }
    for h in &p.hashes {
        for ops in &p.tasks {
            let again = run_fresh(&pa, &lim, ops.clone(), *h);
            let first = run_fresh(&pa, &lim, ops.clone(), p.hash);
            st.add("reports compared across hash seeds", again.len() as u64);
            for (x, y) in first.iter().zip(again.iter()) {
                if let (End::Ok(x), End::Ok(y)) = (&x.end, &y.end) {
                    if x.report != y.report { bad(&mut v, "C10", "reproducible", format!("under hash seeds {} and {}: {:?} and {:?}", p.hash, h, x.report, y.report)); }
                }
            }
        }
    }
    if p.leak && p.sched == Sched::Inline {
        for (op, first) in p.tasks.iter().flatten().zip(ex.reps.iter().flatten().filter(|r| !r.nested)) {
            let (d, reps) = leak_of(&pa, &lim, op);
            // The repetitions are parses from the start as well, after more faults than before.
            if op.fault.is_none() {
                for again in reps.iter().filter(|r| !r.nested) {
                    if let Some(d) = differ(first, again) { bad(&mut v, "C07", "retry", format!("parsing again from the start, after parses that were cut short, differs: {}", d)); break }
                }
            }
            st.add("parses measured for leaks", 1);
            if d != 0 { bad(&mut v, "C07", "leak", format!("g{}.r{} {} with fault {:?} leaves {} bytes allocated", op.g, op.r, if op.parse { "parse" } else { "recognize" }, op.fault, d)); }
        }
    }
    (v, ex.ran.map(|r| r.grants).unwrap_or_default(), trace)
}

/// Bytes still allocated after a parse and everything it returned are gone (last of three repetitions), and the other repetitions.
fn leak_of(p: &Arc<Plan>, lim: &Arc<Limits>, op: &OpSpec) -> (i64, Vec<Rep>) {
    let ops = [op.clone()];
    let mut reps = vec![];
    for _ in 0..2 {
        sched::reset_inline_clock();
        reps.append(&mut run_list(cx(p, lim, 13), &ops));
    }
    sched::reset_inline_clock();
    let b = LIVE_BYTES.with(|c| c.get());
    drop(run_list(cx(p, lim, 13), &ops));
    (LIVE_BYTES.with(|c| c.get()) - b, reps)
}

fn stat_rep(r: &Rep, st: &mut Stats, p: &Plan, rf: &Refs) {
    st.add("parses", 1);
    st.add(if r.spec.parse { "parser calls" } else { "recognizer calls" }, 1);
    if r.nested { st.add("nested parses", 1); if !r.spec.nests.is_empty() { st.add("nested parses that hold another one", 1); } if r.fired { st.add("nested parses cut short", 1); } }
    st.add("stream operations", r.n_ops);
    st.add("action calls", r.n_actions);
    st.add("basic blocks", r.blocks);
    match &r.end {
        End::Ok(o) => st.add(match o.class { Class::Success => "outcome: full match", Class::Partial => "outcome: partial match", Class::Failure => "outcome: failure", Class::Unknown => "outcome: match before a stall" }, 1),
        End::Cancel(k) => st.add(&format!("fault fired: unwinding {}", k.name()), 1),
        End::Stall => st.add("fault fired: stall until cancelled", 1),
        End::Budget(_) => st.add("outcome: over budget", 1),
        End::Panic(_) => st.add("outcome: panic", 1),
    }
    st.add("fault fired: waits for late items", r.awaits);
    for n in p.srcs[r.spec.src].note.split(',') { if !n.is_empty() { st.add(&format!("fault fired: transport {}", n), 1); } }
    if let Some(Ok(x)) = rf.m.get(&(r.spec.g, r.spec.r, r.spec.parse, r.spec.src)) {
        st.add("reference: backtracks", x.backtracks); st.add("reference: predicates", x.preds); st.add("reference: iterations", x.iters);
        if let Some(v) = &x.val { st.add("spans in results", v.count_spans() as u64); }
        if x.far > x.pos && x.ok { st.add("runs whose farthest failure lies beyond the match", 1); }
        if x.expected.len() > 1 { st.add("runs with several expected items", 1); }
    }
}

pub fn differ(x: &Rep, y: &Rep) -> Option<String> {
    if x.end != y.end {
        return Some(match (&x.end, &y.end) {
            (End::Ok(o), End::Ok(q)) => format!("{} / {}", show(o), show(q)),
            _ => format!("{} / {}", x.end.name(), y.end.name()),
        })
    }
    if x.log != y.log { return Some(format!("action calls {} / {}", calls(&x.log), calls(&y.log))) }
    if x.max_req != y.max_req { return Some(format!("items asked for: {} / {}", x.max_req, y.max_req)) }
    None
}

fn show(o: &Outcome) -> String {
    format!("{{{:?} at {}, farthest {}, expected {:?}, value {}}}", o.class, o.pos, o.far, o.expected, o.val.as_ref().map_or("none".into(), |v| v.sx().to_string()))
}
fn calls(v: &[Call]) -> String { format!("[{}]", v.iter().map(|c| format!("a{}({})", c.id, c.args.iter().map(|x| x.sx().to_string()).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join("; ")) }
fn rcalls(v: &[refi::RefCall]) -> String { format!("[{}]", v.iter().map(|c| format!("a{}({})", c.id, c.args.iter().map(|x| x.sx().to_string()).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join("; ")) }

fn judge_one(p: &Plan, rep: &Rep, rf: &Refs, v: &mut Vec<Bad>) {
    let sp = &rep.spec;
    let who = format!("g{}.r{} {}{} on {:?}", sp.g, sp.r, if sp.parse { "parse" } else { "recognize" }, if rep.nested { " (nested)" } else { "" }, p.srcs[sp.src].text);
    // Conservation holds whatever happened.
    if rep.live_tok != 0 { bad(v, "C07", "live values", format!("{}: {}: {} action results not released exactly once", who, rep.end.name(), rep.live_tok)); }
    if rep.live_stream != 0 || rep.refs != 0 { bad(v, "C07", "live streams", format!("{}: {}: {} stream handles, {} references left", who, rep.end.name(), rep.live_stream, rep.refs)); }
    if !rep.text_ok { bad(v, "C07", "text", format!("{}: input text changed", who)); }
    if !sp.parse && !rep.log.is_empty() {
        bad(v, "C02", "action in recognizer", format!("{}: recognizing ran actions {}", who, calls(&rep.log)));
        bad(v, "C04", "action in recognizer", format!("{}: recognizing ran actions {}", who, calls(&rep.log)));
    }
    let r = match &rf.m[&(sp.g, sp.r, sp.parse, sp.src)] {
        Ok(r) => r,
        Err(Give::Diverges) => {
            if let End::Budget(w) = &rep.end { bad(v, "C06", "diverges", format!("{}: the accepted grammar loops: over the budget of {}", who, w)); }
            return
        }
        Err(Give::TooLong) => return,
    };
    let off = &rf.offs[sp.src];
    let avail = { let s = &p.srcs[sp.src]; s.delivered() + s.ends() as usize };
    let answerable = r.max_req <= avail;
    // Actions: a prefix of the calls of the undisturbed evaluation, and all of them if it ended.
    let same = |c: &Call, d: &refi::RefCall| c.id == d.id && c.args.len() == d.args.len() && c.args.iter().zip(d.args.iter()).all(|(x, y)| x.strip() == y.strip());
    let k = rep.log.len().min(r.log.len());
    let pre = rep.log[..k].iter().zip(&r.log[..k]).all(|(c, d)| same(c, d));
    let complete = matches!(rep.end, End::Ok(_));
    if !pre || rep.log.len() > r.log.len() || (complete && rep.log.len() != r.log.len()) {
        bad(v, "C04", "calls", format!("{}: {}: calls {} instead of {}", who, rep.end.name(), calls(&rep.log), rcalls(&r.log)));
    } else {
        for (c, d) in rep.log.iter().zip(&r.log) {
            if c.args != d.args { bad(v, "C12", "span in action", format!("{}: a{}({:?}) instead of a{}({:?})", who, c.id, c.args, d.id, d.args)); break }
        }
        if complete && rep.ops[0] + rep.ops[1] == r.requests && rep.reqs_at != r.reqs_at {
            bad(v, "C04", "not immediate", format!("{}: actions were called after {:?} requests instead of {:?}", who, rep.reqs_at, r.reqs_at));
        }
    }
    match &rep.end {
        End::Panic(m) => {
            bad(v, "C01", "panic", format!("{}: panicked: {}", who, m));
            if sp.fault.is_some() { bad(v, "C07", "panic", format!("{}: panicked under an injected fault: {}", who, m)); }
        }
        End::Budget(w) => bad(v, "C06", "budget", format!("{}: more than the budget of {} (the ordered-choice evaluation needs {} requests)", who, w, r.requests)),
        End::Cancel(_) => {}
        End::Stall => if answerable {
            bad(v, "C13", "waits", format!("{}: waits for an item that does not come, but {} of {} delivered items decide the result", who, r.max_req, avail));
        },
        End::Ok(o) => {
            if rep.fired && sp.fault.map_or(false, |f| f.0 != FK::Alloc) { bad(v, "C07", "swallowed", format!("{}: the injected {:?} did not end the parse", who, sp.fault)); }
            if o.ok != r.ok || (r.ok && o.pos != off[r.pos]) || o.data != r.ok {
                bad(v, "C01", "outcome", format!("{}: {} at {} (data: {}) instead of {} at {}", who, if o.ok { "success" } else { "failure" }, o.pos, o.data, if r.ok { "success" } else { "failure" }, off[r.pos]));
            } else if o.class != Class::Unknown {
                let want = if !r.ok { Class::Failure } else if r.pos < rf.items[sp.src].len() { Class::Partial } else { Class::Success };
                if o.class != want { bad(v, "C01", "class", format!("{}: {:?} instead of {:?}", who, o.class, want)); }
            }
            if o.ok && r.ok {
                let (x, y) = (o.val.clone().unwrap_or(Val::Unit), r.val.clone().unwrap());
                if x.strip() != y.strip() { bad(v, "C03", "value", format!("{}: value {} instead of {}", who, x.sx(), y.sx())); }
                else if x != y { bad(v, "C12", "span in value", format!("{}: value {} instead of {}", who, x.sx(), y.sx())); }
            }
            // On failure and on a partial match.
            if o.ok == r.ok && !(r.ok && r.pos == rf.items[sp.src].len()) {
                let want: Vec<String> = r.expected.iter().cloned().collect();
                if o.far != off[r.far] { bad(v, "C05", "position", format!("{}: farthest failure at {} instead of {}", who, o.far, off[r.far])); }
                else if o.expected != want { bad(v, "C05", "expected", format!("{}: expected items {:?} instead of {:?} at {}", who, o.expected, want, o.far)); }
            }
            if o.req > r.max_req { bad(v, "C13", "asks", format!("{}: asked for {} items, {} decide the result", who, o.req, r.max_req)); }
        }
    }
}

fn judge_pair(x: &Rep, y: &Rep, v: &mut Vec<Bad>) {
    let d = match (&x.end, &y.end) {
        (End::Ok(o), End::Ok(q)) => {
            if o.ok != q.ok || o.class != q.class { Some(format!("{:?} / {:?}", o.class, q.class)) }
            else if o.ok && o.pos != q.pos { Some(format!("position {} / {}", o.pos, q.pos)) }
            else if o.far != q.far || o.expected != q.expected { Some(format!("error {} {:?} / {} {:?}", o.far, o.expected, q.far, q.expected)) }
            else { None }
        }
        (End::Budget(_), _) | (_, End::Budget(_)) => None,
        (a, b) => if std::mem::discriminant(a) != std::mem::discriminant(b) { Some(format!("{} / {}", a.name(), b.name())) } else { None },
    };
    if let Some(d) = d {
        bad(v, "C02", "pair", format!("g{}.r{}: {} and {} differ: {}", x.spec.g, x.spec.r, if x.spec.parse { "parser" } else { "recognizer" }, if y.spec.parse { "parser" } else { "recognizer" }, d));
    }
}

// ---------------------------------------------------------------- reports (C10)

pub fn model_location(text: &str, off: usize) -> String {
    let b = &text.as_bytes()[..off];
    let line = 1 + b.iter().filter(|c| **c == b'\n').count();
    let col = off - b.iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1) + 1;
    format!("{}:{}", line, col)
}

/// Is `snip` an acceptable snippet of at most `n` bytes at `off`?
pub fn snippet_ok(text: &str, off: usize, n: usize, snip: &str) -> bool {
    let rest = &text[off..];
    if rest.is_empty() { return snip == "<end-of-file>" }
    if !rest.starts_with(snip) || snip.len() > n { return false }
    // It only stops short of `n` at the end of the text or in front of a character that does not fit.
    snip.len() == rest.len() || snip.len() + rest[snip.len()..].chars().next().unwrap().len_utf8() > n
}

/// Is `s` the items, each exactly once in some order, in backquotes and joined by ` or `?
pub fn items_once(s: &str, items: &[String]) -> bool {
    fn go(s: &str, items: &[String], used: &mut Vec<bool>, first: bool) -> bool {
        if used.iter().all(|x| *x) { return s.is_empty() }
        let s = if first { s } else { match s.strip_prefix(" or ") { Some(x) => x, None => return false } };
        for i in 0..items.len() {
            if used[i] { continue }
            if let Some(r) = s.strip_prefix('`').and_then(|r| r.strip_prefix(items[i].as_str())).and_then(|r| r.strip_prefix('`')) {
                used[i] = true;
                if go(r, items, used, false) { return true }
                used[i] = false;
            }
        }
        false
    }
    go(s, items, &mut vec![false; items.len()], true)
}

pub fn report_ok(text: &str, far: usize, items: &[String], report: &str) -> Result<(), String> {
    if !text.is_char_boundary(far) { return Err(format!("position {} is inside a character", far)) }
    let loc = model_location(text, far);
    let head = format!("{}: unexpected `", loc);
    let rest = report.strip_prefix(head.as_str()).ok_or(format!("location: {:?} does not start with {:?}", report, head))?;
    // The snippet is at most 10 bytes or the end marker; try every split.
    for (i, _) in rest.match_indices("`, expecting ") {
        if snippet_ok(text, far, 10, &rest[..i]) {
            let tail = &rest[i + "`, expecting ".len()..];
            if let Some(its) = tail.strip_suffix('.') { if items_once(its, items) { return Ok(()) } }
        }
    }
    Err(format!("{:?} is not the report for position {} of {:?} with expected items {:?}", report, far, text, items))
}

fn judge_report(p: &Plan, rep: &Rep, texts: &[String], v: &mut Vec<Bad>) {
    if p.srcs[rep.spec.src].kind == SK::Net { return }
    if let End::Ok(o) = &rep.end {
        if let Some(r) = &o.report {
            let t = &texts[rep.spec.src];
            if o.far <= t.len() { if let Err(m) = report_ok(t, o.far, &o.expected, r) { bad(v, "C10", "report", m); } }
        }
    }
}

// ---------------------------------------------------------------- plan generation

/// A simulated unreliable transport: packets with sequence, latency, loss, duplication, reordering, corruption.
pub fn transport(r: &mut Rng, text: &str, alpha: &[char], faulty: bool) -> SrcSpec {
    let cs: Vec<char> = text.chars().collect();
    let mut notes: BTreeSet<&str> = BTreeSet::new();
    let mut pk: Vec<Vec<char>> = vec![];
    let mut i = 0;
    let most = *r.pick(&[1usize, 1, 2, 4, 16, 80]);
    while i < cs.len() { let n = r.range(1, most).min(cs.len() - i); pk.push(cs[i..i + n].to_vec()); i += n; }
    let en: Vec<bool> = (0..6).map(|_| faulty && r.chance(1, 3)).collect();
    let mut out: Vec<Vec<char>> = vec![];
    for p in pk {
        if en[0] && r.chance(1, 12) { notes.insert("loss"); continue }
        let mut p = p;
        if en[3] && r.chance(1, 8) { let j = r.below(p.len()); p[j] = *r.pick(alpha); notes.insert("corruption"); }
        if en[1] && r.chance(1, 10) { out.push(p.clone()); notes.insert("duplication"); }
        out.push(p);
        if en[2] && out.len() > 1 && r.chance(1, 8) { let k = out.len(); out.swap(k - 1, k - 2); notes.insert("reordering"); }
    }
    if en[4] && !out.is_empty() && r.chance(1, 2) { let k = r.below(out.len() + 1); out.truncate(k); notes.insert("truncation"); }
    let lat = *r.pick(&[0usize, 0, 1, 5, 40]);
    let mut now = 0u64;
    let mut pieces = vec![];
    let mut t = String::new();
    for p in &out {
        now += if lat == 0 { 0 } else { r.below(lat + 1) as u64 };
        if lat > 0 && r.chance(1, 12) { now += 10_000; notes.insert("delay"); }
        pieces.push((now, p.len()));
        t.extend(p.iter());
    }
    now += r.below(lat + 1) as u64;
    SrcSpec { kind: SK::Net, base: if r.chance(1, 3) { r.below(5000) as u32 } else { 0 }, text: t, pieces, eof: Some(now), note: notes.into_iter().collect::<Vec<_>>().join(",") }
}
/// Cuts the delivery after `n` items (the end never comes either).
pub fn stall_after(s: &mut SrcSpec, n: usize) {
    let mut left = n;
    let mut v = vec![];
    for (t, k) in &s.pieces { if left == 0 { break } let m = (*k).min(left); v.push((*t, m)); left -= m; }
    s.pieces = v;
    if n <= s.text.chars().count() { s.eof = None; }
    s.note = if s.note.is_empty() { "stall".into() } else { format!("{},stall", s.note) };
}

pub struct Gen<'a> { pub r: Rng, pub gids: &'a [usize], pub prop: &'a str }

impl<'a> Gen<'a> {
    fn src(&mut self, g: usize, rule: usize, faulty: bool) -> SrcSpec {
        let w = &sys().world;
        let gr = &w[&g];
        let text = crate::ggen::input(gr, w, &mut self.r, rule, self.prop == "C06");
        let kinds: &[usize] = match self.prop { "C10" => &[0, 4, 4], "C12" => &[4, 3, 4], "C13" => &[8, 1, 1], _ => &[6, 2, 2] };
        match self.r.weighted(kinds) {
            0 => transport(&mut self.r, &text, &crate::ggen::chars_of(gr), faulty),
            k => {
                let mut t = text;
                if self.prop == "C10" && self.r.chance(1, 2) {
                    // Text with lines of every kind in front is not parsed differently, but located differently: mix line ends in.
                    let cs: Vec<char> = t.chars().collect();
                    t.clear();
                    for c in cs { t.push(c); if self.r.chance(1, 6) { t.push_str(*self.r.pick(&["\n", "\r\n", "\r", "é", "𝄞\n"])); } }
                }
                let mut s = SrcSpec::plain(if k == 1 { SK::Str } else { SK::Fm }, &t);
                if s.kind == SK::Str && self.r.chance(1, 4) { s.base = 1 + self.r.below(140) as u32; }
                if k == 2 && self.r.chance(3, 4) { let n = s.text.len(); s.base = file_base(&mut self.r, n); }
                s
            }
        }
    }
    fn pick_rule(&mut self) -> (usize, usize) {
        let g = *self.r.pick(self.gids);
        let n = sys().table[&g].len();
        (g, self.r.below(n))
    }
    fn op(&self, g: usize, r: usize, parse: bool, src: usize) -> OpSpec { OpSpec { g, r, parse, src, fault: None, nests: vec![] } }

    /// A source whose reference evaluation is affordable.
    fn good_src(&mut self, g: usize, r: usize, faulty: bool) -> Option<SrcSpec> {
        for _ in 0..6 {
            let s = self.src(g, r, faulty);
            let p = Plan { seed: 0, hash: 0, srcs: vec![s.clone()], tasks: vec![vec![self.op(g, r, true, 0)]], subs: vec![], sched: Sched::Inline, solo: false, leak: false, hashes: vec![] };
            let (rf, _) = refs(&p);
            match &rf.m[&(g, r, true, 0)] { Ok(x) if x.steps < 30_000 => return Some(s), Err(Give::Diverges) => return Some(s), _ => {} }
        }
        None
    }
    fn ref_of(&self, s: &SrcSpec, g: usize, r: usize, parse: bool) -> Option<RefOut> {
        let p = Plan { seed: 0, hash: 0, srcs: vec![s.clone()], tasks: vec![vec![self.op(g, r, parse, 0)]], subs: vec![], sched: Sched::Inline, solo: false, leak: false, hashes: vec![] };
        refs(&p).0.m.remove(&(g, r, parse, 0)).unwrap().ok()
    }
    /// Runs an operation once, to learn how many operations, actions and allocations it makes.
    fn probe(&self, srcs: &[SrcSpec], op: &OpSpec) -> Rep {
        let p = Plan { seed: 0, hash: 0, srcs: srcs.to_vec(), tasks: vec![vec![OpSpec { nests: vec![], ..op.clone() }]], subs: vec![], sched: Sched::Inline, solo: false, leak: false, hashes: vec![] };
        let (_, lim) = refs(&p);
        let pa = Arc::new(p);
        exec(&pa, &lim).reps.remove(0).remove(0)
    }
    fn fault_for(&mut self, rep: &Rep, kinds: &[FK]) -> Option<(FK, u64)> {
        let ks: Vec<FK> = kinds.iter().cloned().filter(|k| match k { FK::Op => rep.n_ops > 0, FK::Action => rep.n_actions > 0, FK::Alloc => rep.n_allocs > 0 }).collect();
        if ks.is_empty() { return None }
        let k = *self.r.pick(&ks);
        let n = match k { FK::Op => rep.n_ops, FK::Action => rep.n_actions, FK::Alloc => rep.n_allocs };
        // Late faults have more in flight.
        let at = if self.r.chance(1, 2) { 1 + self.r.below(n as usize) as u64 } else { n - self.r.below((n as usize + 3) / 4) as u64 };
        Some((k, at.max(1)))
    }

    pub fn plan(&mut self, seed: u64) -> Option<Plan> {
        let mut p = Plan { seed, hash: self.r.u64() >> 16, srcs: vec![], tasks: vec![], subs: vec![], sched: Sched::Inline, solo: false, leak: false, hashes: vec![] };
        let prop = self.prop.to_string();
        let prop = prop.as_str();
        let many = match prop { "C08" => true, "C07" => self.r.chance(1, 10), "C06" | "C10" => false, _ => self.r.chance(1, 8) };
        let nt = if !many { 1 } else if prop == "C08" && self.r.chance(1, 16) { self.r.range(5, 12) } else { self.r.range(2, 4) };
        let same = many && self.r.chance(1, 2);
        let first = self.pick_rule();
        for ti in 0..nt {
            let mut ops = vec![];
            let reps = if many { self.r.range(1, 2) } else { 1 };
            for _ in 0..reps {
                let (g, r) = if same && self.r.chance(3, 4) { first } else if ti == 0 { first } else { self.pick_rule() };
                let si = if same && !p.srcs.is_empty() && g == first.0 && r == first.1 && self.r.chance(1, 2) { 0 } else {
                    let faulty = self.r.chance(1, 2);
                    match self.good_src(g, r, faulty) { Some(s) => p.srcs.push(s), None => return None }
                    p.srcs.len() - 1
                };
                // Stalls.
                let stall = match prop { "C13" => self.r.chance(4, 5), "C08" => self.r.chance(1, 8), "C04" | "C02" | "C07" => self.r.chance(1, 8), _ => false };
                if stall && p.srcs[si].kind == SK::Net && p.srcs[si].ends() && !(same && si == 0 && !p.tasks.is_empty()) {
                    let total = p.srcs[si].text.chars().count();
                    let n = match self.ref_of(&p.srcs[si], g, r, true) {
                        Some(x) if self.r.chance(3, 4) => if self.r.chance(4, 5) { x.max_req.min(total) } else { x.max_req.min(total).saturating_sub(1) },
                        _ => self.r.below(total + 1),
                    };
                    // Needing the end itself cannot be met by a stream that stalls before it.
                    stall_after(&mut p.srcs[si], n);
                }
                let op = self.op(g, r, true, si);
                match prop {
                    "C07" => {
                        let parse = self.r.chance(4, 5);
                        let op = self.op(g, r, parse, si);
                        let rep = self.probe(&p.srcs, &op);
                        ops.push(op.clone());
                        let k = self.r.range(1, 3);
                        for _ in 0..k {
                            if let Some(f) = self.fault_for(&rep, &[FK::Op, FK::Op, FK::Action, FK::Alloc]) { let mut o = op.clone(); o.fault = Some(f); ops.push(o); }
                        }
                        ops.push(op);
                    }
                    "C04" => {
                        ops.push(op.clone());
                        if self.r.chance(1, 3) {
                            let rep = self.probe(&p.srcs, &op);
                            if let Some(f) = self.fault_for(&rep, &[FK::Op, FK::Action]) { let mut o = op.clone(); o.fault = Some(f); ops.push(o); }
                        }
                        if self.r.chance(1, 4) { ops.push(self.op(g, r, false, si)); }
                    }
                    "C08" => {
                        let parse = self.r.chance(4, 5);
                        let mut op = self.op(g, r, parse, si);
                        if self.r.chance(1, 5) {
                            let rep = self.probe(&p.srcs, &op);
                            if let Some(f) = self.fault_for(&rep, &[FK::Op, FK::Action]) { op.fault = Some(f); }
                        }
                        ops.push(op);
                    }
                    _ => {
                        let rec = self.op(g, r, false, si);
                        if self.r.chance(1, 2) { ops.push(op); ops.push(rec); } else { ops.push(rec); ops.push(op); }
                    }
                }
            }
            p.tasks.push(ops);
        }
        // Nested parses.
        if matches!(prop, "C08") || self.r.chance(1, 12) {
            let k = self.r.range(0, 2);
            for _ in 0..k {
                let ti = self.r.below(p.tasks.len());
                let oi = self.r.below(p.tasks[ti].len());
                let host = p.tasks[ti][oi].clone();
                if host.fault.is_some() { continue }
                let rep = self.probe(&p.srcs, &host);
                let (g, r) = if self.r.chance(1, 2) { (host.g, host.r) } else { self.pick_rule() };
                let si = if g == host.g && r == host.r && self.r.chance(1, 2) && p.srcs[host.src].ends() { host.src } else {
                    match self.good_src(g, r, false) { Some(s) => p.srcs.push(s), None => continue }
                    p.srcs.len() - 1
                };
                if let Some((fk, at)) = self.fault_for(&rep, &[FK::Op, FK::Action]) {
                    let parse = self.r.chance(3, 4);
                    p.subs.push(self.op(g, r, parse, si));
                    let mut s = p.subs.len() - 1;
                    p.tasks[ti][oi].nests.push((fk, at, s));
                    // A parse inside of a parse inside of a parse; the innermost one may be cut short, the ones around it go on.
                    for _ in 0..2 {
                        if !self.r.chance(1, 3) { break }
                        let host = p.subs[s].clone();
                        let rep = self.probe(&p.srcs, &host);
                        let (g, r, si) = if self.r.chance(2, 3) || !p.srcs[host.src].ends() { (host.g, host.r, host.src) } else {
                            let (g, r) = self.pick_rule();
                            match self.good_src(g, r, false) { Some(x) => p.srcs.push(x), None => break }
                            (g, r, p.srcs.len() - 1)
                        };
                        match self.fault_for(&rep, &[FK::Op, FK::Action]) {
                            Some((fk, at)) => {
                                let parse = self.r.chance(3, 4);
                                p.subs.push(self.op(g, r, parse, si));
                                let n = p.subs.len() - 1;
                                p.subs[s].nests.push((fk, at, n));
                                s = n;
                            }
                            None => break,
                        }
                    }
                    if self.r.chance(1, 3) {
                        let rep = self.probe(&p.srcs, &p.subs[s].clone());
                        p.subs[s].fault = self.fault_for(&rep, if prop == "C07" { &[FK::Op, FK::Action, FK::Alloc] } else { &[FK::Op, FK::Action] });
                    }
                }
            }
        }
        if many {
            let mean = *self.r.pick(&[1u64, 3, 10, 40, 200]);
            let seed = self.r.u64() >> 8;
            p.sched = if self.r.chance(2, 3) { Sched::Random { seed, mean } } else { Sched::Pct { seed, mean } };
        }
        p.solo = prop == "C08";
        p.leak = prop == "C07" && !many;
        if prop == "C10" && self.r.chance(1, 4) { let k = self.r.range(1, 2); p.hashes = (0..k).map(|_| self.r.u64() >> 16).collect(); }
        Some(p)
    }
}

// ---------------------------------------------------------------- shrinking

/// Sizes of the pieces to take out of something of size `n`, large ones first; small ones only where there are not too many.
pub fn cuts(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [n / 2, n / 4, n / 16, n / 64, n / 200, 8, 3, 2, 1].iter().cloned().filter(|c| *c > 0 && n / *c <= 260).collect();
    v.sort(); v.dedup(); v.reverse();
    v
}

pub fn shrink(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    // Fewer tasks, operations, nested parses, faults, hash seeds.
    if p.tasks.len() > 1 { for i in 0..p.tasks.len() { let mut q = p.clone(); q.tasks.remove(i); if let Sched::Explicit(s) = &mut q.sched { s.retain(|x| x.0 != i); for x in s.iter_mut() { if x.0 > i { x.0 -= 1; } } } v.push(q); } }
    for i in 0..p.tasks.len() { if p.tasks[i].len() > 1 { for j in 0..p.tasks[i].len() { let mut q = p.clone(); q.tasks[i].remove(j); v.push(q); } } }
    for i in 0..p.tasks.len() { for j in 0..p.tasks[i].len() {
        for k in 0..p.tasks[i][j].nests.len() { let mut q = p.clone(); q.tasks[i][j].nests.remove(k); v.push(q); }
        if let Some((k, n)) = p.tasks[i][j].fault {
            let mut q = p.clone(); q.tasks[i][j].fault = None; v.push(q);
            for m in [1, n / 2, n - 1] { if m > 0 && m < n { let mut q = p.clone(); q.tasks[i][j].fault = Some((k, m)); v.push(q); } }
        }
    } }
    for i in 0..p.subs.len() {
        for k in 0..p.subs[i].nests.len() { let mut q = p.clone(); q.subs[i].nests.remove(k); v.push(q); }
        if p.subs[i].fault.is_some() { let mut q = p.clone(); q.subs[i].fault = None; v.push(q); }
    }
    if p.sched != Sched::Inline && p.tasks.len() == 1 { let mut q = p.clone(); q.sched = Sched::Inline; v.push(q); }
    if let Sched::Explicit(s) = &p.sched {
        let n = s.len();
        for c in cuts(n) { if c < n { let mut i = 0; while i < n { let mut q = p.clone(); let mut w = s.clone(); w.drain(i..(i + c).min(n)); q.sched = Sched::Explicit(w); v.push(q); i += c; } } }
        if n == 1 { let mut q = p.clone(); q.sched = Sched::Explicit(vec![]); v.push(q); }
    }
    for i in 0..p.hashes.len() { if p.hashes.len() > 1 { let mut q = p.clone(); q.hashes.remove(i); v.push(q); } }
    // Shorter and simpler input, prompt delivery.
    for i in 0..p.srcs.len() {
        let s = &p.srcs[i];
        let cs: Vec<char> = s.text.chars().collect();
        if s.kind == SK::Net && s.ends() && (s.pieces.len() > 1 || s.eof != Some(0)) {
            let mut q = p.clone();
            q.srcs[i].pieces = vec![(0, cs.len())]; q.srcs[i].eof = Some(0);
            v.push(q);
        }
        if s.base != 0 { let mut q = p.clone(); q.srcs[i].base = 0; v.push(q); let mut q = p.clone(); q.srcs[i].base = s.base / 2; v.push(q); }
        if s.kind != SK::Net || s.ends() || s.pieces.iter().map(|x| x.1).sum::<usize>() <= cs.len() {
            for c in cuts(cs.len()) {
                let mut k = 0;
                while k + c <= cs.len() {
                    let mut w = cs.clone();
                    w.drain(k..k + c);
                    let mut q = p.clone();
                    // Pieces shrink where the items were.
                    let mut pos = 0;
                    let mut ps = vec![];
                    for (t, n) in &s.pieces { let lo = k.max(pos).min(pos + n); let hi = (k + c).max(pos).min(pos + n); ps.push((*t, n - (hi - lo))); pos += n; }
                    ps.retain(|x| x.1 > 0);
                    q.srcs[i].pieces = ps;
                    q.srcs[i].text = w.into_iter().collect();
                    v.push(q);
                    k += c;
                }
            }
        }
        if cs.len() <= 300 { for k in 0..cs.len() { if !cs[k].is_ascii_lowercase() || cs[k] > 'a' { let mut w = cs.clone(); w[k] = 'a'; let mut q = p.clone(); q.srcs[i].text = w.into_iter().collect(); v.push(q); } } }
    }
    v
}

pub fn explicit(p: &Plan, grants: &[(usize, u64)]) -> Plan {
    let mut q = p.clone();
    if q.sched != Sched::Inline { q.sched = Sched::Explicit(grants.to_vec()); }
    q
}
