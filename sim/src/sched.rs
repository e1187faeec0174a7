//! Deterministic thread scheduler: simulated threads are real OS threads of which exactly one runs at a time.
//!
//! Every yield point asks the scheduler which thread goes next; the answer comes from the seeded policy of the
//! run, or from a recorded list of decisions when replaying.

use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::thread::Thread;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Pt {
    Count,
    Callback,
    Alloc,
    Dealloc,
    Op,
}

/// How a run is scheduled
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Policy {
    /// switch with probability 1/n at each yield point
    Random { seed: u64, one_in: u64 },
    /// priorities with d random change points in the first `horizon` steps
    Pct { seed: u64, depth: u32, horizon: u64 },
    /// one thread gets a single step at a time while the others run bursts of up to `burst` steps
    Starve { seed: u64, victim: u8, burst: u64 },
    /// explicit list of (step, thread); between entries the running thread continues
    Explicit(Vec<(u64, u8)>),
}

/// A thread suspended at its own `at`-th step: until `steps` more global steps have passed, or (`steps == 0`)
/// until every other thread has finished
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Stall {
    pub thread: u8,
    pub at: u64,
    pub steps: u64,
}

pub const MAIN: usize = usize::MAX;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(MAIN) };
}

pub fn tid() -> usize {
    TID.try_with(|t| t.get()).unwrap_or(MAIN)
}

struct T {
    handle: Option<Thread>,
    done: bool,
    started: bool,
    steps: u64,
    stalled_until: Option<u64>, // Some(u64::MAX) = until the others are done
    prio: u64,
}

pub struct Sched {
    threads: Vec<T>,
    step: u64,
    rng: Rng,
    policy: Policy,
    pct_changes: Vec<u64>,
    pct_low: u64,
    next_explicit: usize,
    burst_left: u64,
    stalls: Vec<Stall>,
    pub recorded: Vec<(u64, u8)>,
    pub hash: u64,
    pub switches: u64,
    pub stalls_fired: u64,
    pub points: [u64; 5],
    step_limit: u64,
    main: Option<Thread>,
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static CURRENT: AtomicUsize = AtomicUsize::new(MAIN);
static mut SCHED: Option<Sched> = None;

// SAFETY: only the thread holding the baton (CURRENT) touches it
#[allow(static_mut_refs)]
fn sched() -> &'static mut Sched {
    unsafe { SCHED.as_mut().unwrap() }
}

fn wait_for_baton(me: usize) {
    while CURRENT.load(Acquire) != me {
        std::thread::park();
    }
}

fn hand_over(to: usize) {
    let s = sched();
    let h = if to == MAIN { s.main.clone() } else { s.threads[to].handle.clone() };
    CURRENT.store(to, Release);
    if let Some(h) = h {
        h.unpark();
    }
}

impl Sched {
    fn runnable(&self, t: usize) -> bool {
        let x = &self.threads[t];
        !x.done
            && match x.stalled_until {
                None => true,
                Some(u64::MAX) => false,
                Some(s) => self.step >= s,
            }
    }

    /// Picks the thread to run now; `me` is the thread at the yield point (MAIN: none)
    fn choose(&mut self, me: usize) -> Option<usize> {
        let n = self.threads.len();
        let mut cand: Vec<usize> = (0..n).filter(|t| self.runnable(*t)).collect();
        if cand.is_empty() {
            // everyone who is left is stalled: the clock jumps to the earliest wake-up
            let t = (0..n)
                .filter(|t| !self.threads[*t].done)
                .min_by_key(|t| (self.threads[*t].stalled_until.unwrap_or(0), *t))?;
            self.threads[t].stalled_until = None;
            cand.push(t);
        }
        let stay = cand.contains(&me);
        let pick = match &self.policy {
            Policy::Random { one_in, .. } => {
                let one_in = *one_in;
                if stay && !self.rng.chance(1, one_in) {
                    me
                } else {
                    *self.rng.pick(&cand)
                }
            }
            Policy::Pct { .. } => {
                if self.pct_changes.contains(&self.step) && me != MAIN {
                    self.pct_low -= 1;
                    self.threads[me].prio = self.pct_low;
                }
                *cand.iter().max_by_key(|t| (self.threads[**t].prio, **t)).unwrap()
            }
            Policy::Starve { victim, burst, .. } => {
                let v = *victim as usize;
                if self.burst_left > 0 && stay && me != v {
                    self.burst_left -= 1;
                    me
                } else if me == v || !cand.contains(&v) {
                    let rest: Vec<usize> = cand.iter().copied().filter(|t| *t != v).collect();
                    if rest.is_empty() {
                        v
                    } else {
                        self.burst_left = self.rng.below(*burst + 1);
                        *self.rng.pick(&rest)
                    }
                } else {
                    v
                }
            }
            Policy::Explicit(list) => {
                let mut want = None;
                while self.next_explicit < list.len() && list[self.next_explicit].0 < self.step {
                    self.next_explicit += 1;
                }
                if self.next_explicit < list.len() && list[self.next_explicit].0 == self.step {
                    want = Some(list[self.next_explicit].1 as usize);
                    self.next_explicit += 1;
                }
                match want {
                    Some(w) if cand.contains(&w) => w,
                    _ if stay => me,
                    _ => cand[0],
                }
            }
        };
        if pick != me {
            self.recorded.push((self.step, pick as u8));
            self.switches += 1;
        }
        Some(pick)
    }
}

/// Yield point; does nothing outside simulated threads
pub fn point(p: Pt) {
    if !ACTIVE.load(Relaxed) {
        return;
    }
    let me = tid();
    if me == MAIN {
        return;
    }
    // the scheduler's own allocations are not the crate's
    let _f = crate::alloc::SutFlag::set(false);
    let s = sched();
    s.step += 1;
    s.threads[me].steps += 1;
    s.points[p as usize] += 1;
    s.hash = crate::rng::mix(s.hash ^ ((me as u64) << 8) ^ p as u64);
    if s.step > s.step_limit {
        crate::ctx::fatal("no progress: the step bound of the run was exceeded (livelock)");
    }
    let my_steps = s.threads[me].steps;
    let mut i = 0;
    while i < s.stalls.len() {
        if s.stalls[i].thread as usize == me && s.stalls[i].at <= my_steps {
            let st = s.stalls.remove(i);
            s.stalls_fired += 1;
            s.threads[me].stalled_until = Some(if st.steps == 0 { u64::MAX } else { s.step + st.steps });
        } else {
            i += 1;
        }
    }
    let next = s.choose(me).unwrap();
    if next != me {
        hand_over(next);
        wait_for_baton(me);
    }
    sched().threads[me].stalled_until = None;
}

pub fn my_steps() -> u64 {
    let me = tid();
    if me == MAIN || !ACTIVE.load(Relaxed) {
        return 0;
    }
    sched().threads[me].steps
}

/// Whether some other thread is currently suspended in the middle of something
pub fn some_other_stalled() -> bool {
    if !ACTIVE.load(Relaxed) {
        return false;
    }
    let me = tid();
    let s = sched();
    s.threads.iter().enumerate().any(|(i, t)| i != me && !t.done && t.started && t.stalled_until.is_some())
}

/// Decisions taken so far, if simulated threads are running
pub fn recorded_so_far() -> Option<Vec<(u64, u8)>> {
    if !ACTIVE.load(Relaxed) {
        return None;
    }
    Some(sched().recorded.clone())
}

pub struct Summary {
    pub steps: u64,
    pub hash: u64,
    pub recorded: Vec<(u64, u8)>,
    pub switches: u64,
    pub stalls_fired: u64,
    pub points: [u64; 5],
}

/// Runs the bodies as simulated threads to completion
pub fn run(policy: Policy, stalls: Vec<Stall>, step_limit: u64, bodies: Vec<Box<dyn FnOnce() + Send>>) -> Summary {
    let seed = match &policy {
        Policy::Random { seed, .. } | Policy::Pct { seed, .. } | Policy::Starve { seed, .. } => *seed,
        Policy::Explicit(_) => 0,
    };
    let mut rng = Rng::new(seed);
    let n = bodies.len();
    let mut threads: Vec<T> = (0..n)
        .map(|_| T { handle: None, done: false, started: false, steps: 0, stalled_until: None, prio: 0 })
        .collect();
    let mut pct_changes = vec![];
    if let Policy::Pct { depth, horizon, .. } = &policy {
        for t in threads.iter_mut() {
            t.prio = (1 << 40) + rng.below(1 << 30);
        }
        pct_changes = (0..*depth).map(|_| 1 + rng.below((*horizon).max(1))).collect();
    }
    unsafe {
        SCHED = Some(Sched {
            threads,
            step: 0,
            rng,
            policy,
            pct_changes,
            pct_low: 1 << 30,
            next_explicit: 0,
            burst_left: 0,
            stalls,
            recorded: vec![],
            hash: 0,
            switches: 0,
            stalls_fired: 0,
            points: [0; 5],
            step_limit,
            main: Some(std::thread::current()),
        });
    }
    CURRENT.store(MAIN, Release);
    let mut joins = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        let j = std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                TID.with(|t| t.set(i));
                wait_for_baton(i);
                sched().threads[i].started = true;
                b();
                let s = sched();
                s.threads[i].done = true;
                s.step += 1;
                let others = (0..s.threads.len()).any(|t| !s.threads[t].done);
                let next = if others { s.choose(MAIN).unwrap() } else { MAIN };
                hand_over(next);
            })
            .expect("spawn");
        sched().threads[i].handle = Some(j.thread().clone());
        joins.push(j);
    }
    ACTIVE.store(true, Release);
    if n > 0 {
        let first = sched().choose(MAIN).unwrap();
        hand_over(first);
        wait_for_baton(MAIN);
    }
    ACTIVE.store(false, Release);
    for j in joins {
        let _ = j.join();
    }
    #[allow(static_mut_refs)]
    let s = unsafe { SCHED.take().unwrap() };
    Summary {
        steps: s.step,
        hash: s.hash,
        recorded: s.recorded,
        switches: s.switches,
        stalls_fired: s.stalls_fired,
        points: s.points,
    }
}
