pub mod alloc;
pub mod ctx;
pub mod ggen;
pub mod driver;
pub mod gram;
pub mod hist;
pub mod refi;
pub mod rng;
pub mod run;
pub mod sched;
pub mod seam;
pub mod sexp;
pub mod stream;
pub mod val;

pub mod prelude {
    pub use crate::ctx::{enter_action, leave_action};
    pub use crate::run::{finish, RuleFns};
    pub use crate::stream::SimStream;
    pub use crate::val::{ToVal, Tok};
    pub use oak_runtime::parse_state::IntoState;
    pub use std::ops::Range;
}

/// Called at every basic block of instrumented crates (the runtime and the generated parsers).
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_g: *mut u32) { ctx::block(); }
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_a: *mut u32, _b: *mut u32) {}

/// The source of the keys of hash maps: decided by the simulator, per thread.
pub fn hash_bytes(buf: *mut u8, len: usize) -> isize {
    let s = ctx::HASH_SEED.with(|c| c.get());
    let mut r = rng::Rng::new(s);
    for i in 0..len { unsafe { *buf.add(i) = r.u64() as u8; } }
    len as isize
}
