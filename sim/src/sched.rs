//! The scheduler: real threads, exactly one of which runs; who runs next and for how long is drawn from the seed.
//! The simulated clock lives here too: it jumps to the next arrival when nobody can run.
use crate::ctx::{SLICE};
use crate::rng::Rng;
use std::cell::{Cell, RefCell};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Sched {
    /// Everything runs in one thread, one operation after the other.
    Inline,
    /// Slices of a random length around `mean` steps.
    Random { seed: u64, mean: u64 },
    /// Priorities with `changes` random priority-change points (PCT).
    Pct { seed: u64, mean: u64 },
    /// Exactly these (task, steps) grants; then every task to its end.
    Explicit(Vec<(usize, u64)>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St { Ready, Sleep(u64), Never, Locked, Done }

struct State {
    turn: usize,
    slice: u64,
    st: Vec<St>,
    now: u64,
    kind: Sched,
    rng: Rng,
    prio: Vec<u64>,
    next: usize,
    grants: Vec<(usize, u64)>,
    switches: u64,
    /// How often tasks had to wait for locks since one of them got on.
    waits: u64,
    locks: u64,
}

pub struct Shared { m: Mutex<State>, cv: Vec<Condvar>, all: Condvar }

thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
    static NOW: Cell<u64> = const { Cell::new(0) };
    /// Inside of the scheduler: its own locks are real ones.
    static HERE: Cell<bool> = const { Cell::new(false) };
    static SHARED: RefCell<Option<Arc<Shared>>> = const { RefCell::new(None) };
}

const NOBODY: usize = usize::MAX;

impl State {
    /// Decides who runs next, and for how many steps.
    fn grant(&mut self) {
        self.now += 1;
        for s in self.st.iter_mut() { if let St::Sleep(x) = *s { if x <= self.now { *s = St::Ready; } } }
        if !self.st.iter().any(|s| *s == St::Ready) {
            if let Some(x) = self.st.iter().filter_map(|s| if let St::Sleep(x) = s { Some(*x) } else { None }).min() {
                self.now = x;
                for s in self.st.iter_mut() { if let St::Sleep(y) = *s { if y <= x { *s = St::Ready; } } }
            } else if let Some(i) = self.st.iter().position(|s| *s == St::Never) {
                // Only parses that wait for something that never comes are left: they are cancelled.
                self.st[i] = St::Ready;
            } else if self.st.iter().any(|s| *s == St::Locked) {
                self.deadlock();
            } else { self.turn = NOBODY; return }
        }
        let ready: Vec<usize> = (0..self.st.len()).filter(|i| self.st[*i] == St::Ready).collect();
        let (t, n) = match self.kind.clone() {
            Sched::Inline => (ready[0], u64::MAX - 1),
            Sched::Random { mean, .. } => { let t = *self.rng.pick(&ready); (t, self.len(mean)) }
            Sched::Pct { mean, .. } => {
                let t = *ready.iter().max_by_key(|i| self.prio[**i]).unwrap();
                let n = self.len(mean);
                // At the end of the slice this task falls behind all others.
                let low = *self.prio.iter().min().unwrap();
                if self.rng.chance(2, 3) { self.prio[t] = low.saturating_sub(1); }
                (t, n)
            }
            Sched::Explicit(v) => {
                let mut r = (ready[0], u64::MAX - 1);
                while self.next < v.len() {
                    let e = v[self.next];
                    self.next += 1;
                    if ready.contains(&e.0) { r = e; break }
                }
                r
            }
        };
        // Who waits for a lock tries again when another task has run.
        for s in self.st.iter_mut() { if *s == St::Locked { *s = St::Ready; } }
        if self.turn != t { self.switches += 1; }
        self.turn = t;
        self.slice = n;
        self.grants.push((t, n));
    }
    fn deadlock(&self) -> ! {
        eprintln!("oaksim: deadlock");
        std::process::exit(87)
    }
    fn len(&mut self, mean: u64) -> u64 {
        match self.rng.below(8) { 0 => 0, 1 => 1, 2 => mean * 8, _ => self.rng.below(mean as usize * 2 + 1) as u64 }
    }
}

fn shared() -> Option<Arc<Shared>> { SHARED.with(|s| s.borrow().clone()) }

fn hand_over(sh: &Shared, mut st: std::sync::MutexGuard<State>, me: usize) -> u64 {
    st.grant();
    while st.turn != me {
        if st.turn == NOBODY { sh.all.notify_all(); } else { sh.cv[st.turn].notify_all(); }
        st = sh.cv[me].wait(st).unwrap();
    }
    let n = st.slice;
    drop(st);
    n
}

fn inside<T>(f: impl FnOnce() -> T) -> T {
    let b = HERE.with(|c| c.replace(true));
    let r = f();
    HERE.with(|c| c.set(b));
    r
}

/// Is this thread one of the simulated ones, outside of the scheduler?
pub fn scheduled() -> bool {
    !HERE.try_with(|c| c.get()).unwrap_or(true) && SLICE.try_with(|c| c.get()).unwrap_or(u64::MAX) != u64::MAX
}

/// The running task has to wait for a lock that another one holds.
pub fn blocked() {
    if let Some(sh) = shared() {
        inside(|| {
            let me = ME.with(|c| c.get());
            let mut st = sh.m.lock().unwrap();
            st.waits += 1;
            st.locks += 1;
            if st.waits > 10_000 { st.deadlock(); }
            st.st[me] = St::Locked;
            let n = hand_over(&sh, st, me);
            SLICE.with(|c| c.set(n));
        })
    }
}

/// The slice of the running task is used up.
pub fn switch() {
    if let Some(sh) = shared() {
        inside(|| {
            let me = ME.with(|c| c.get());
            let mut st = sh.m.lock().unwrap();
            st.waits = 0;
            let n = hand_over(&sh, st, me);
            SLICE.with(|c| c.set(n));
        })
    }
}

/// Waits for the simulated time `t`. Returns whether it had to wait.
pub fn await_until(t: Option<u64>) -> bool {
    match shared() {
        None => match t {
            None => true,
            Some(t) => NOW.with(|n| if t > n.get() { n.set(t); true } else { false }),
        },
        Some(sh) => inside(|| {
            let me = ME.with(|c| c.get());
            let mut st = sh.m.lock().unwrap();
            st.waits = 0;
            match t { Some(t) if t <= st.now => return false, Some(t) => st.st[me] = St::Sleep(t), None => st.st[me] = St::Never }
            let n = hand_over(&sh, st, me);
            SLICE.with(|c| c.set(n));
            true
        }),
    }
}

pub fn now() -> u64 { match shared() { None => NOW.with(|n| n.get()), Some(sh) => inside(|| sh.m.lock().unwrap().now) } }
pub fn reset_inline_clock() { NOW.with(|n| n.set(0)); }

pub struct Ran { pub grants: Vec<(usize, u64)>, pub switches: u64, pub time: u64, pub locks: u64 }

/// Runs the tasks in threads of their own under the schedule.
pub fn run_tasks(kind: &Sched, tasks: Vec<Box<dyn FnOnce() + Send>>) -> Ran {
    let seed = match kind { Sched::Random { seed, .. } | Sched::Pct { seed, .. } => *seed, _ => 0 };
    let n = tasks.len();
    let mut rng = Rng::new(seed);
    let prio = (0..n).map(|_| 1 << 32 | (rng.u64() >> 40)).collect();
    let sh = Arc::new(Shared {
        m: Mutex::new(State { turn: NOBODY, slice: 0, st: vec![St::Ready; n], now: 0, kind: kind.clone(), rng, prio, next: 0, grants: vec![], switches: 0, waits: 0, locks: 0 }),
        cv: (0..n).map(|_| Condvar::new()).collect(), all: Condvar::new(),
    });
    let mut hs = vec![];
    for (i, f) in tasks.into_iter().enumerate() {
        let sh = sh.clone();
        hs.push(std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
            ME.with(|c| c.set(i));
            let mut st = sh.m.lock().unwrap();
            while st.turn != i { st = sh.cv[i].wait(st).unwrap(); }
            let n = st.slice;
            drop(st);
            SHARED.with(|s| *s.borrow_mut() = Some(sh.clone()));
            SLICE.with(|c| c.set(n));
            f();
            SLICE.with(|c| c.set(u64::MAX));
            SHARED.with(|s| *s.borrow_mut() = None);
            let mut st = sh.m.lock().unwrap();
            st.st[i] = St::Done;
            st.grant();
            if st.turn != NOBODY { sh.cv[st.turn].notify_all(); }
        }).expect("spawn"));
    }
    {
        let mut st = sh.m.lock().unwrap();
        st.grant();
        if st.turn != NOBODY { sh.cv[st.turn].notify_all(); }
    }
    for h in hs { h.join().expect("task thread"); }
    let st = sh.m.lock().unwrap();
    Ran { grants: st.grants.clone(), switches: st.switches, time: st.now, locks: st.locks }
}
