//! Executes one written-out run.

use crate::alloc;
use crate::ctx::{ctx, violation, Cb, Ctx};
use crate::feat::{Feat, Kind, Tree};
use crate::model::Model;
use crate::rng::{mix, Rng};
use crate::sched;
use crate::spec::Spec;
use crate::stats::stats;
use crate::types::{Ix, Ix1, Ix4};
use crate::world::{ok, AssertSend, World, H};
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures};
use std::sync::{Arc, Mutex};

pub const WORLDS: [&str; 21] = [
    "plain usize join M=3",
    "plain Ix1 join M=1",
    "plain Ix1 nojoin M=2",
    "plain Ix4 join M=1",
    "plain Ix4 nojoin M=3",
    "cow usize join M=3",
    "cow Ix1 join M=1",
    "cow Ix1 nojoin M=2",
    "cow Ix4 join M=1",
    "cow Ix4 nojoin M=3",
    "refs usize join M=3",
    "refs Ix1 join M=1",
    "refs Ix1 nojoin M=2",
    "refs Ix4 join M=1",
    "refs Ix4 nojoin M=3",
    "plain Ix4 join M=2",
    "cow Ix4 join M=2",
    "refs Ix4 join M=2",
    "plain Ix1 nojoin M=127",
    "cow Ix1 nojoin M=127",
    "refs Ix1 nojoin M=127",
];

/// 0 plain, 1 clone-on-write, 2 slice references
pub fn kind(world: usize) -> usize {
    if world < 15 {
        world / 5
    } else {
        world % 3
    }
}

pub fn wide(world: usize) -> bool {
    world >= 18
}

pub struct Out {
    pub hash: u64,
    pub steps: u64,
}

pub fn run(spec: &Spec) -> Out {
    let w = spec.world % WORLDS.len();
    macro_rules! go {
        ($p:ty, $k:expr) => {
            match $k {
                0 => engine::<usize, true, $p, 3>(spec),
                1 => engine::<Ix1, true, $p, 1>(spec),
                2 => engine::<Ix1, false, $p, 2>(spec),
                3 => engine::<Ix4, true, $p, 1>(spec),
                4 => engine::<Ix4, false, $p, 3>(spec),
                5 => engine::<Ix4, true, $p, 2>(spec),
                _ => engine::<Ix1, false, $p, 127>(spec),
            }
        };
    }
    let k = if w < 15 { w % 5 } else { 5 + (w - 15) / 3 };
    match kind(w) {
        0 => go!(NoFeatures, k),
        1 => go!(AllowCow, k),
        _ => go!(AllowSliceRefs, k),
    }
}

struct Pack<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize> {
    hs: Vec<H<I, MJ, P, M>>,
    ro: Option<Arc<AssertSend<(Tree<I, MJ, P, M>, Model)>>>,
}

impl<T> AssertSend<T> {
    fn open(self) -> T {
        self.0
    }
}

fn engine<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize>(spec: &Spec) -> Out {
    Ctx::reset();
    ctx().join_policy = spec.policy;
    ctx().yield_cb = spec.yield_cb;
    ctx().signs = spec.prop == "C08" || spec.prop == "C18";
    let mut w = World::<I, MJ, P, M>::new(0, spec.policy, spec.every, spec.twin, spec.cost);
    for op in &spec.init {
        w.exec(op);
    }
    let mut sh = 0;
    let mut steps = 0;
    if !spec.threads.is_empty() && P::KIND == Kind::Cow {
        let s = threads(spec, &mut w);
        sh = s.hash;
        steps = s.steps;
        let st = stats();
        st.add("scheduler steps", s.steps);
        st.add("context switches", s.switches);
        st.add("fault: thread suspended mid-operation", s.stalls_fired);
        for (k, n) in ["count ops", "callbacks", "allocations", "releases", "operations"].iter().zip(s.points) {
            st.add(&format!("yield points: {k}"), n);
        }
    }
    ctx().what = "final check".into();
    w.check_all();
    w.finish(spec.end);
    drop(w);
    ctx().what = "end of run".into();
    let c = ctx();
    let drop_faults = c.fired[Cb::Drop as usize] > 0;
    let any = c.fired.iter().sum::<u64>();
    if c.live > 0 && !drop_faults && !c.leak_ok {
        violation(format!("{} slices were never destroyed although every handle and reference is gone", c.live));
    }
    let (blocks, bytes) = alloc::end_run();
    if let Some(e) = alloc::take_error() {
        violation(e);
    }
    if blocks > 0 && any == 0 && !c.leak_ok {
        violation(format!("{blocks} memory blocks ({bytes} bytes) were never released although every handle and reference is gone"));
    }
    let st = stats();
    for (k, n) in c.fired.iter().enumerate() {
        if *n > 0 {
            st.add(&format!("fault: panic in {}", crate::ctx::CB_NAMES[k]), *n);
        }
    }
    st.add("callbacks made by the crate", c.cb.iter().sum());
    st.add("re-entrant hook calls", c.reent_calls);
    Out { hash: mix(c.hash ^ sh), steps }
}

fn threads<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize>(spec: &Spec, w: &mut World<I, MJ, P, M>) -> sched::Summary {
    let mut g = Rng::new(spec.end as u64 ^ 0x7123);
    if w.hs.iter().all(|h| h.is_none()) {
        let h = w.fresh_empty();
        w.put(h);
    }
    w.check_all();
    let mut packs = vec![];
    let ro = if spec.shared {
        let src = w.hs.iter().flatten().find(|h| !h.poisoned);
        src.map(|h| Arc::new(AssertSend((ok("clone", || P::clone_tree(&h.t).unwrap()), h.m.clone()))))
    } else {
        None
    };
    let srcs: Vec<usize> = (0..w.hs.len()).filter(|i| w.hs[*i].is_some()).collect();
    for _ in 0..spec.threads.len() {
        let mut hs = vec![];
        for _ in 0..1 + g.below(2) {
            let k = *g.pick(&srcs);
            hs.push(w.dup(k));
        }
        packs.push(Pack { hs, ro: ro.clone() });
    }
    drop(ro);
    // main keeps some handles, so that sharing with a handle nobody touches occurs too
    for k in srcs {
        if g.chance(1, 2) {
            let h = w.hs[k].take().unwrap();
            if g.chance(1, 2) {
                let t = g.below(packs.len() as u64) as usize;
                packs[t].hs.push(h);
            } else {
                w.drop_handle(h);
            }
        }
    }
    let mail: crate::world::Mailbox<H<I, MJ, P, M>> = Arc::new((0..2).map(|_| Mutex::new(None)).collect());
    let back: Arc<Mutex<Vec<AssertSend<H<I, MJ, P, M>>>>> = Arc::new(Mutex::new(vec![]));
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, pack) in packs.into_iter().enumerate() {
        let ops = spec.threads[t].clone();
        let pack = AssertSend(pack);
        let mail = mail.clone();
        let back = back.clone();
        let (pol, every, cost, end) = (spec.policy, spec.every, spec.cost, spec.end);
        bodies.push(Box::new(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let pack = pack.open();
                let mut w = World::<I, MJ, P, M>::new(t as u64 + 1, pol, every, false, cost);
                w.mail = Some(mail);
                w.ro = pack.ro;
                for h in pack.hs {
                    w.put(h);
                }
                for op in &ops {
                    w.exec(op);
                }
                w.check_all();
                let mut g = Rng::new(end as u64 ^ (t as u64) << 32);
                if g.chance(1, 2) {
                    let hs: Vec<_> = w.hs.iter_mut().filter_map(|h| h.take()).collect();
                    let mut b = back.lock().unwrap();
                    b.extend(hs.into_iter().map(AssertSend));
                }
                w.finish(g.u32());
            }));
            if r.is_err() {
                crate::driver::die_broken("harness: simulated thread panicked");
            }
        }));
    }
    let summary =
        sched::run(spec.sched.clone().unwrap_or(sched::Policy::Explicit(vec![])), spec.stalls.clone(), 2_000_000, bodies);
    let hs: Vec<_> = std::mem::take(&mut *back.lock().unwrap());
    for h in hs {
        w.put(h.open());
    }
    for s in mail.iter() {
        if let Some(h) = s.lock().unwrap().take() {
            w.put(h.open());
        }
    }
    summary
}
