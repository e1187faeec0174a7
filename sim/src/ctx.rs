//! Per-run context: registry of live slices, counters, armed faults, first violation.
//!
//! Accessed only by the thread that holds the scheduler's baton (or by the single thread of a run without
//! simulated threads), so plain mutable access is exclusive.

use crate::alloc::SutFlag;
use crate::rng::mix;
use crate::sched;
use serde::{Deserialize, Serialize};

/// Kinds of user callbacks the crate under test makes into the harness
#[derive(Copy, Clone, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum Cb {
    Split,
    Join,
    Clone,
    Drop,
    Add,
    Sub,
    Cmp,
    CurNew,
    CurPrepend,
    CurPath,
    CurNext,
    Ser,
    De,
    Range,
    /// the function given to `Borrow::map`
    Map,
}
pub const NCB: usize = 15;
pub const CB_NAMES: [&str; NCB] = [
    "split", "join", "clone", "drop", "add", "sub", "cmp", "cursor_new", "cursor_prepend", "cursor_path",
    "cursor_next", "serialize", "deserialize", "range", "map",
];

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum St {
    Live,
    Dead,
}

#[derive(Clone, Debug)]
pub struct Meta {
    pub st: St,
    pub tag: u32,
    pub off: [i64; 4],
    pub len: [i64; 4],
}

/// One injected fault: the `nth` (0-based) callback of a kind in `mask` during the op panics
#[derive(Clone, Debug)]
pub struct Armed {
    pub mask: u32,
    pub nth: u32,
    pub thread: usize,
    pub after: bool,
}

/// Contents of a slice: tag, offset, length
pub type Piece = (u32, [i64; 4], [i64; 4]);

/// What one simulated thread did since the start of its current operation
#[derive(Default)]
pub struct Per {
    pub n: [u64; NCB],
    pub joins: Vec<(Piece, Piece, bool)>,
    pub splits: u64,
    /// slices cloned
    pub clones: Vec<u32>,
    pub steps0: u64,
    /// the operation is on a handle an earlier operation of which panicked
    pub tolerant: bool,
    pub last_panic: String,
    /// operations are done while unwinding
    pub unwinding: bool,
}

/// Starts counting a new operation of the current thread
pub fn begin_op() {
    let s = sched::my_steps();
    let p = per();
    p.n = [0; NCB];
    p.joins.clear();
    p.clones.clear();
    p.splits = 0;
    p.tolerant = false;
    p.steps0 = s;
}

/// Slot of the current thread in [`Ctx::per`]
pub fn slot() -> usize {
    sched::tid().min(8)
}

pub fn per() -> &'static mut Per {
    &mut ctx().per[slot()]
}

pub struct Injected(#[allow(dead_code)] pub Cb);

/// `catch_unwind`, from a destructor that runs while the thread is already unwinding if the operation says so
pub fn catch<R>(f: impl FnOnce() -> R) -> std::thread::Result<R> {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    struct InDrop<'a, F: FnOnce() -> R, R>(Option<F>, &'a mut Option<std::thread::Result<R>>);
    impl<F: FnOnce() -> R, R> Drop for InDrop<'_, F, R> {
        fn drop(&mut self) {
            let f = self.0.take().unwrap();
            let _f = SutFlag::set(true);
            *self.1 = Some(catch_unwind(AssertUnwindSafe(f)));
        }
    }
    if !per().unwinding || std::thread::panicking() {
        let _f = SutFlag::set(true);
        return catch_unwind(AssertUnwindSafe(f));
    }
    let mut out = None;
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let _g = InDrop(Some(f), &mut out);
        std::panic::resume_unwind(Box::new(()))
    }));
    out.unwrap()
}

pub type Reent = Box<dyn FnMut(Cb)>;

pub struct Ctx {
    pub vals: Vec<Meta>,
    pub live: usize,
    pub peak_live: usize,
    pub hash: u64,
    pub cb: [u64; NCB],
    pub per: Vec<Per>,
    pub armed: Vec<Armed>,
    pub fired: [u64; NCB],
    pub last_fired: Option<Cb>,
    pub drop_panics: u64,
    pub reent: Option<Reent>,
    pub reent_calls: u64,
    /// a finding on record leaks: do not judge what is left at the end
    pub leak_ok: bool,
    /// yield to the scheduler in callbacks (index callbacks only if 2)
    pub yield_cb: u8,
    pub join_policy: u8,
    pub verbose: bool,
    pub what: String,
    /// index arithmetic must not go below zero
    pub signs: bool,
}

static mut CTX: Option<Ctx> = None;

#[allow(static_mut_refs)]
pub fn ctx() -> &'static mut Ctx {
    unsafe { CTX.get_or_insert_with(Ctx::new) }
}

impl Ctx {
    fn new() -> Ctx {
        Ctx {
            vals: Vec::new(),
            live: 0,
            peak_live: 0,
            hash: 0,
            cb: [0; NCB],
            per: (0..9).map(|_| Per::default()).collect(),
            armed: vec![],
            fired: [0; NCB],
            last_fired: None,
            drop_panics: 0,
            reent: None,
            reent_calls: 0,
            leak_ok: false,
            yield_cb: 1,
            join_policy: 1,
            verbose: false,
            what: String::new(),
            signs: false,
        }
    }

    pub fn reset() {
        let v = ctx().verbose;
        unsafe { CTX = Some(Ctx::new()) };
        ctx().verbose = v;
    }

    pub fn log(&mut self, x: u64) {
        self.hash = mix(self.hash ^ x);
    }

    pub fn new_val(&mut self, tag: u32, off: [i64; 4], len: [i64; 4]) -> u32 {
        let _f = SutFlag::set(false);
        let id = self.vals.len() as u32;
        self.vals.push(Meta { st: St::Live, tag, off, len });
        self.live += 1;
        self.peak_live = self.peak_live.max(self.live);
        id
    }
}

/// Reports a violation of the property being checked and ends the process: the run goes no further, so that
/// nothing after the first wrong observation can confuse the report
pub fn violation(msg: impl Into<String>) -> ! {
    let _f = SutFlag::set(false);
    let c = ctx();
    let m = msg.into();
    let m = if c.what.is_empty() { m } else { format!("{m} [during {}]", c.what) };
    crate::driver::die_with_violation(&m)
}

pub fn fatal(msg: &str) -> ! {
    violation(msg)
}

/// Prologue of every user callback. Returns normally or panics with [`Injected`].
pub fn callback(kind: Cb) -> bool {
    let c = ctx();
    c.cb[kind as usize] += 1;
    let n = &mut c.per[slot()].n[kind as usize];
    *n += 1;
    if *n > 20_000_000 {
        violation(format!("operation does not end: {n} {} callbacks", CB_NAMES[kind as usize]));
    }
    let y = match kind {
        Cb::Add | Cb::Sub | Cb::Cmp | Cb::Range => c.yield_cb >= 2,
        _ => c.yield_cb >= 1,
    };
    if y {
        sched::point(sched::Pt::Callback);
    }
    if let Some(mut r) = ctx().reent.take() {
        ctx().reent_calls += 1;
        r(kind);
        if ctx().reent.is_none() {
            ctx().reent = Some(r);
        }
    }
    if ctx().armed.is_empty() {
        return false;
    }
    fault(kind)
}

/// Whether an armed fault hits this callback: panics, or returns true for "panic at the end of the callback"
fn fault(kind: Cb) -> bool {
    let c = ctx();
    let me = sched::tid();
    let mut hit = None;
    for (i, a) in c.armed.iter_mut().enumerate() {
        if a.thread == me && a.mask & (1 << kind as u32) != 0 {
            if a.nth == 0 {
                hit = Some(i);
                break;
            }
            a.nth -= 1;
        }
    }
    if let Some(i) = hit {
        if std::thread::panicking() {
            // a second panic while unwinding aborts by language rule; not a fault the crate can survive
            return false;
        }
        let a = c.armed.remove(i);
        c.fired[kind as usize] += 1;
        c.last_fired = Some(kind);
        if c.verbose {
            backtrace();
            eprintln!("   fault: panic injected in {}{}", CB_NAMES[kind as usize], if a.after { " (at its end)" } else { "" });
        }
        if a.after && kind == Cb::Split {
            return true;
        }
        inject(kind);
    }
    false
}

pub fn inject(kind: Cb) -> ! {
    std::panic::resume_unwind(Box::new(Injected(kind)))
}

/// Development aid: with SHERSIM_BT set, shows where in the crate under test something happened
pub fn backtrace() {
    if std::env::var_os("SHERSIM_BT").is_none() {
        return;
    }
    let b = std::backtrace::Backtrace::force_capture().to_string();
    let mut l = b.lines().peekable();
    while let Some(x) = l.next() {
        if let Some(y) = l.peek() {
            if y.contains("/repo/src") {
                eprintln!("        {} {}", x.trim(), y.trim());
            }
        }
    }
}
