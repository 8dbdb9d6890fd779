//! Per-thread state of the simulation: counters, fault triggers, logs. Every hook of the simulator ends up here.
use crate::sched;
use crate::val::*;
use std::cell::{Cell, RefCell};
use std::sync::Arc;

thread_local! {
    /// Depth of harness code: while positive, allocations do not count and do not fail, and basic blocks do not count.
    pub static IN: Cell<u32> = const { Cell::new(0) };
    /// Steps until the scheduler takes the turn away; `u64::MAX`: not scheduled.
    pub static SLICE: Cell<u64> = const { Cell::new(u64::MAX) };
    pub static BLOCKS: Cell<u64> = const { Cell::new(0) };
    pub static BLOCK_LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    pub static ALLOCS: Cell<u64> = const { Cell::new(0) };
    /// Allocations made until the parse had its result.
    pub static PARSE_ALLOCS: Cell<u64> = const { Cell::new(u64::MAX) };
    pub static ALLOC_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    pub static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
    pub static LIVE_TOK: Cell<i64> = const { Cell::new(0) };
    pub static LIVE_STREAM: Cell<i64> = const { Cell::new(0) };
    pub static HASH_SEED: Cell<u64> = const { Cell::new(0x5EED) };
    pub static FRAMES: RefCell<Vec<Frame>> = const { RefCell::new(Vec::new()) };
    pub static NEST: Cell<Option<fn(usize)>> = const { Cell::new(None) };
}

pub struct H;
impl H { pub fn new() -> H { IN.with(|c| c.set(c.get() + 1)); H } }
impl Drop for H { fn drop(&mut self) { IN.with(|c| c.set(c.get() - 1)); } }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum FK { Op, Action, Alloc }
impl FK {
    pub fn name(self) -> &'static str { match self { FK::Op => "op", FK::Action => "action", FK::Alloc => "alloc" } }
    pub fn of(s: &str) -> FK { match s { "op" => FK::Op, "action" => FK::Action, "alloc" => FK::Alloc, o => panic!("fault kind {}", o) } }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpK { Next = 0, Prefix = 1, Clone = 2, Cmp = 3, HasNext = 4 }

#[derive(Clone, Debug, PartialEq)]
pub struct Call { pub id: u32, pub args: Arc<Vec<Val>> }

/// Payloads of simulated unwinding.
pub struct Cancel(pub FK);
pub struct Stall;
pub struct Budget(pub &'static str);

#[derive(Default)]
pub struct Frame {
    pub log: Vec<Call>,
    /// For each call, the number of requests (next, prefix) made before it.
    pub call_reqs: Vec<u64>,
    pub ops: [u64; 5],
    pub n_ops: u64,
    pub n_actions: u64,
    pub fault_op: Option<u64>,
    pub fault_action: Option<u64>,
    pub nests: Vec<(FK, u64, usize)>,
    pub req_limit: u64,
    pub clone_limit: u64,
    pub trace: u64,
    pub fired: bool,
    pub awaits: u64,
    pub stalled: bool,
}

fn unwind<T: Send + 'static>(x: T) -> ! { std::panic::resume_unwind(Box::new(x)) }

/// A point where the scheduler may take the turn away.
#[inline]
pub fn tick() {
    let s = SLICE.with(|c| c.get());
    if s == u64::MAX { return }
    if s == 0 { sched::switch(); } else { SLICE.with(|c| c.set(s - 1)); }
}

enum Then { Go, Fault, Nest(Vec<usize>), Budget(&'static str) }

/// Called at the start of every operation of a simulated stream.
pub fn op(k: OpK, at: usize) {
    let _h = H::new();
    tick();
    let then = FRAMES.with(|f| {
        let mut f = f.borrow_mut();
        let fr = match f.last_mut() { Some(x) => x, None => return Then::Go };
        fr.ops[k as usize] += 1;
        fr.n_ops += 1;
        fr.trace = crate::rng::mix(fr.trace, (k as u64) << 32 | at as u64);
        if fr.fault_op == Some(fr.n_ops) { fr.fired = true; return Then::Fault }
        if fr.ops[OpK::Next as usize] + fr.ops[OpK::Prefix as usize] > fr.req_limit { return Then::Budget("requests") }
        if fr.ops[OpK::Clone as usize] + fr.ops[OpK::Cmp as usize] > fr.clone_limit { return Then::Budget("cursor copies") }
        due(fr, FK::Op)
    });
    act_on(then, FK::Op);
}

fn due(fr: &mut Frame, k: FK) -> Then {
    if fr.nests.is_empty() { return Then::Go }
    let n = if k == FK::Op { fr.n_ops } else { fr.n_actions };
    let v: Vec<usize> = fr.nests.iter().filter(|x| x.0 == k && x.1 == n).map(|x| x.2).collect();
    if v.is_empty() { Then::Go } else { Then::Nest(v) }
}

fn act_on(t: Then, k: FK) {
    match t {
        Then::Go => {}
        Then::Fault => unwind(Cancel(k)),
        Then::Budget(w) => unwind(Budget(w)),
        Then::Nest(v) => {
            let f = NEST.with(|c| c.get());
            if let Some(f) = f {
                // The nested parse is a parse of its own: it counts, ticks and allocates like any other.
                let depth = IN.with(|c| c.replace(0));
                for i in v { f(i); }
                IN.with(|c| c.set(depth));
            }
        }
    }
}

pub fn enter_action(_id: u32) -> H { let h = H::new(); tick(); h }

pub fn leave_action(h: H, id: u32, v: Vec<Val>) -> Tok {
    let args = Arc::new(v);
    let then = FRAMES.with(|f| {
        let mut f = f.borrow_mut();
        let fr = match f.last_mut() { Some(x) => x, None => return Then::Go };
        fr.n_actions += 1;
        fr.trace = crate::rng::mix(fr.trace, 7 << 40 | id as u64);
        fr.log.push(Call { id, args: args.clone() });
        fr.call_reqs.push(fr.ops[0] + fr.ops[1]);
        if fr.fault_action == Some(fr.n_actions) { fr.fired = true; return Then::Fault }
        due(fr, FK::Action)
    });
    act_on(then, FK::Action);
    let t = Tok::made(id, args);
    drop(h);
    t
}

/// A basic block of the runtime or of generated code was entered.
pub fn block() {
    if IN.with(|c| c.get()) > 0 { return }
    let b = BLOCKS.with(|c| { let b = c.get() + 1; c.set(b); b });
    if b > BLOCK_LIMIT.with(|c| c.get()) {
        // There is no unwinding from here: leave, the orchestrator knows which run it was.
        eprintln!("oaksim: block budget exceeded");
        std::process::exit(86);
    }
    if SLICE.with(|c| c.get()) != u64::MAX { let _h = H::new(); tick(); }
}

/// Waits until the simulated time `t` (never if `None`).
pub fn await_until(t: Option<u64>) {
    let _h = H::new();
    let waited = sched::await_until(t);
    if waited { FRAMES.with(|f| if let Some(fr) = f.borrow_mut().last_mut() { fr.awaits += 1; }); }
    if t.is_none() {
        FRAMES.with(|f| if let Some(fr) = f.borrow_mut().last_mut() { fr.stalled = true; });
        unwind(Stall)
    }
}
