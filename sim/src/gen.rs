//! Draws runs: one seed and property give one written-out run.

use crate::ctx::Cb;
use crate::run::{kind, wide};
use crate::rng::{hash_str, mix, Rng};
use crate::sched::{Policy, Stall};
use crate::spec::{Flt, Op, Spec, K};

const ALL_FAULTS: &[Cb] = &[
    Cb::Split,
    Cb::Join,
    Cb::Clone,
    Cb::Drop,
    Cb::Add,
    Cb::Sub,
    Cb::Cmp,
    Cb::CurNew,
    Cb::CurPrepend,
    Cb::CurPath,
    Cb::CurNext,
    Cb::Ser,
    Cb::De,
    Cb::Range,
];

struct P {
    worlds: &'static [usize],
    w: &'static [(K, u32)],
    len: (u64, u64),
    /// one operation in so many carries a fault
    fault: u64,
    faults: &'static [Cb],
    re: u64,
    every: &'static [u32],
    twin: bool,
    cost: bool,
    /// out of 8 runs, how many have threads
    threads: u64,
    tw: &'static [(K, u32)],
    pols: &'static [u8],
}

const PLAIN: &[usize] = &[0, 1, 2, 3, 4, 15];
const COW: &[usize] = &[5, 6, 7, 8, 9, 16];
const REFS: &[usize] = &[10, 11, 12, 13, 14, 17];
const ANY: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17];
const IX4: &[usize] = &[3, 4, 8, 9, 13, 14, 15, 16, 17];

const BASE: P = P {
    worlds: ANY,
    w: &[],
    len: (10, 60),
    fault: 0,
    faults: ALL_FAULTS,
    re: 0,
    every: &[1, 4, 16, 16],
    twin: false,
    cost: false,
    threads: 0,
    tw: &[],
    pols: &[1, 1, 2, 3],
};

const GROW: &[(K, u32)] = &[(K::New, 2), (K::Insert, 16), (K::Burst, 3), (K::Clone, 4), (K::Drop, 2)];

const THREAD_OPS: &[(K, u32)] = &[
    (K::Insert, 10),
    (K::Burst, 1),
    (K::Clone, 5),
    (K::Drop, 5),
    (K::Get, 2),
    (K::Iter, 2),
    (K::IterWhile, 1),
    (K::CursorTo, 1),
    (K::Mail, 3),
    (K::SharedRead, 2),
    (K::SharedClone, 2),
    (K::SharedDrop, 1),
];

fn profile(prop: &str) -> P {
    match prop {
        "C01" => P { worlds: COW, w: GROW, len: (3, 24), every: &[4, 16], threads: 8, tw: THREAD_OPS, ..BASE },
        "C02" => P {
            worlds: COW,
            w: GROW,
            len: (3, 20),
            every: &[16, 0],
            threads: 7,
            tw: &[
                (K::Insert, 8),
                (K::Burst, 1),
                (K::Clone, 8),
                (K::Drop, 9),
                (K::Get, 1),
                (K::Iter, 1),
                (K::Mail, 4),
                (K::SharedClone, 2),
                (K::SharedDrop, 2),
            ],
            ..BASE
        },
        "C04" => P { worlds: COW, w: GROW, len: (3, 24), every: &[0], threads: 8, tw: THREAD_OPS, ..BASE },
        "C05" => P {
            worlds: COW,
            w: &[(K::New, 1), (K::Insert, 18), (K::Burst, 4), (K::Clone, 6), (K::Drop, 3), (K::IterWhile, 1)],
            len: (10, 70),
            cost: true,
            threads: 2,
            tw: THREAD_OPS,
            every: &[16],
            ..BASE
        },
        "C06" => P {
            w: &[
                (K::New, 2),
                (K::Insert, 18),
                (K::InsertRef, 4),
                (K::Burst, 3),
                (K::Clone, 5),
                (K::Drop, 3),
                (K::Get, 2),
                (K::CursorTo, 1),
                (K::Iter, 2),
                (K::MakeRef, 3),
                (K::RefRead, 2),
                (K::RefClone, 1),
                (K::RefDrop, 1),
                (K::Borrow, 1),
                (K::BorrowDrop, 2),
                (K::Serde, 1),
            ],
            fault: 6,
            threads: 2,
            tw: THREAD_OPS,
            ..BASE
        },
        "C07" => P {
            w: &[
                (K::New, 2),
                (K::Insert, 12),
                (K::InsertRef, 3),
                (K::Burst, 2),
                (K::Clone, 3),
                (K::Drop, 1),
                (K::Reject, 12),
                (K::MakeRef, 4),
                (K::RefDrop, 1),
                (K::Borrow, 3),
                (K::BorrowClone, 1),
                (K::BorrowDrop, 3),
            ],
            ..BASE
        },
        "C08" => P {
            w: &[
                (K::New, 2),
                (K::Insert, 20),
                (K::Burst, 5),
                (K::Get, 5),
                (K::CursorTo, 3),
                (K::Iter, 1),
                (K::Clone, 2),
                (K::Drop, 1),
                (K::InsertRef, 1),
                (K::MakeRef, 1),
            ],
            len: (10, 120),
            ..BASE
        },
        "C09" => P {
            w: &[
                (K::New, 1),
                (K::Insert, 14),
                (K::Burst, 4),
                (K::CursorTo, 2),
                (K::Iter, 14),
                (K::IterWhile, 4),
                (K::Clone, 3),
                (K::Drop, 1),
            ],
            every: &[0],
            ..BASE
        },
        "C10" => P {
            worlds: REFS,
            w: &[
                (K::New, 2),
                (K::Insert, 16),
                (K::InsertRef, 6),
                (K::Burst, 3),
                (K::MakeRef, 8),
                (K::RefRead, 4),
                (K::RefClone, 4),
                (K::RefDrop, 5),
                (K::Get, 1),
                (K::Drop, 1),
            ],
            every: &[1, 2, 8],
            ..BASE
        },
        "C11" => P {
            worlds: REFS,
            w: &[
                (K::New, 4),
                (K::Insert, 12),
                (K::InsertRef, 3),
                (K::Burst, 2),
                (K::MakeRef, 7),
                (K::RefRead, 3),
                (K::RefClone, 4),
                (K::RefDrop, 4),
                (K::Borrow, 6),
                (K::BorrowClone, 3),
                (K::BorrowRead, 2),
                (K::BorrowDrop, 5),
                (K::Drop, 4),
            ],
            every: &[1, 1, 4],
            re: 12,
            ..BASE
        },
        "C12" => P {
            worlds: &[11, 11, 11, 12, 12, 13, 14, 17, 10, 1, 3, 6, 8],
            w: &[
                (K::New, 3),
                (K::Insert, 18),
                (K::InsertRef, 5),
                (K::Burst, 2),
                (K::MakeRef, 8),
                (K::Get, 3),
                (K::CursorTo, 1),
                (K::Iter, 2),
                (K::Paths, 1),
                (K::RefRead, 6),
                (K::RefClone, 2),
                (K::RefDrop, 1),
                (K::Reject, 1),
                (K::Borrow, 2),
                (K::BorrowDrop, 3),
                (K::Clone, 2),
                (K::Drop, 3),
            ],
            every: &[1, 4],
            re: 2,
            ..BASE
        },
        "C13" => P {
            w: &[(K::New, 2), (K::Insert, 10), (K::Burst, 3), (K::Serde, 10), (K::Clone, 2), (K::Drop, 3)],
            fault: 24,
            faults: &[Cb::Ser, Cb::De, Cb::Add, Cb::Join, Cb::Cmp],
            every: &[8],
            len: (6, 40),
            ..BASE
        },
        "C14" => P {
            worlds: PLAIN,
            w: &[(K::New, 2), (K::Insert, 12), (K::Burst, 4), (K::Clone, 9), (K::Drop, 5), (K::IterWhile, 1)],
            fault: 6,
            faults: &[Cb::Clone],
            every: &[1, 4],
            ..BASE
        },
        "C15" => P {
            w: &[
                (K::New, 1),
                (K::Insert, 16),
                (K::InsertRef, 2),
                (K::Burst, 4),
                (K::Paths, 6),
                (K::CursorTo, 3),
                (K::Clone, 4),
                (K::Drop, 2),
                (K::MakeRef, 2),
                (K::RefRead, 2),
            ],
            every: &[16],
            twin: true,
            ..BASE
        },
        "C16" => P {
            worlds: &[1, 2, 3, 4, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17],
            w: &[
                (K::New, 1),
                (K::Insert, 20),
                (K::Burst, 10),
                (K::Get, 8),
                (K::CursorTo, 3),
                (K::Clone, 1),
                (K::Drop, 1),
                (K::MakeRef, 1),
                (K::RefDrop, 1),
            ],
            len: (20, 200),
            cost: true,
            every: &[16],
            ..BASE
        },
        "C17" => P {
            worlds: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16],
            w: &[
                (K::New, 3),
                (K::Insert, 16),
                (K::Burst, 3),
                (K::Clone, 5),
                (K::Drop, 2),
                (K::DrainDrop, 3),
                (K::MakeRef, 2),
                (K::RefRead, 1),
            ],
            ..BASE
        },
        "C18" => P {
            worlds: IX4,
            w: &[
                (K::New, 2),
                (K::Insert, 20),
                (K::InsertRef, 2),
                (K::Burst, 4),
                (K::Get, 4),
                (K::Iter, 4),
                (K::CursorTo, 1),
                (K::Clone, 2),
                (K::Drop, 1),
                (K::MakeRef, 3),
                (K::RefRead, 2),
                (K::Reject, 1),
            ],
            len: (10, 90),
            ..BASE
        },
        "C21" => P { worlds: &[1], w: &[(K::Mock, 1)], len: (1, 3), every: &[0], ..BASE },
        "C20" => P { worlds: &[1], w: &[(K::Liar, 1)], len: (1, 4), every: &[0], ..BASE },
        _ => P { w: GROW, ..BASE },
    }
}

fn op(g: &mut Rng, w: &[(K, u32)], p: &P) -> Op {
    let k = w[g.weighted(&w.iter().map(|x| x.1).collect::<Vec<_>>())].0;
    let mut o = Op { k, h: g.u32() as u8, a: g.u32(), b: g.u32(), c: g.u32(), d: g.u32(), f: vec![], re: 0, un: false };
    if p.fault > 0 && g.chance(1, p.fault) {
        let n = if g.chance(1, 8) { 2 } else { 1 };
        for _ in 0..n {
            // one kind, or any
            let m = if g.chance(3, 4) {
                1 << *g.pick(p.faults) as u32
            } else {
                p.faults.iter().fold(0, |m, f| m | 1 << *f as u32)
            };
            let index = 1 << Cb::Add as u32 | 1 << Cb::Sub as u32 | 1 << Cb::Cmp as u32;
            let n = if m & index != 0 { g.below(60) } else { *g.pick(&[0, 0, 0, 1, 1, 2, 3, 5, 8]) };
            o.f.push(Flt { m, n: n as u32, after: g.chance(1, 4) });
        }
    }
    if p.re > 0 && g.chance(1, p.re) {
        o.re = g.u32() | 1;
    }
    o.un = g.chance(1, 32);
    o
}

pub fn gen(prop: &str, thorough: bool, seed: u64) -> Spec {
    let p = profile(prop);
    let mut g = Rng::new(mix(seed ^ hash_str(prop)));
    let mut world = *g.pick(p.worlds);
    // now and then, a tree with the widest nodes there can be
    if !matches!(prop, "C18" | "C20" | "C21") && g.chance(1, 200) {
        world = 18 + kind(world);
    }
    let threaded = g.below(8) < p.threads;
    let mut len = g.range(p.len.0, p.len.1);
    if g.chance(1, if thorough { 12 } else { 40 }) {
        len *= 4;
    }
    let mut init = vec![Op { k: K::New, h: 0, a: 0, b: 1, c: g.u32(), d: 0, f: vec![], re: 0, un: false }];
    if matches!(prop, "C20" | "C21") {
        init.clear();
    } else if wide(world) || g.chance(1, 6) {
        init.push(Op { k: K::Bulk, h: 0, a: g.u32(), b: g.u32(), c: g.u32(), d: g.u32(), f: vec![], re: 0, un: false });
        if wide(world) {
            len = len.min(60);
            if prop == "C13" {
                // thousands of slices read and written over and over are too slow
                init[1].d |= 1;
            } else if init[1].d & 15 == 0 {
                len = len.min(12);
            }
        }
    }
    for _ in 0..len {
        init.push(op(&mut g, p.w, &p));
    }
    if matches!(prop, "C01" | "C02" | "C08" | "C09" | "C10" | "C11") && g.chance(1, 4) {
        let at = g.range(1, init.len() as u64) as usize;
        init.insert(at, op(&mut g, &[(K::Constant, 1)], &p));
    }
    if matches!(prop, "C02" | "C05" | "C06" | "C10" | "C11" | "C12") && kind(world) > 0 && g.chance(1, 12) {
        let at = g.range(1, init.len() as u64) as usize;
        init.insert(at, op(&mut g, &[(K::Many, 1)], &p));
    }
    let mut spec = Spec {
        prop: prop.into(),
        world,
        policy: *g.pick(p.pols),
        yield_cb: *g.pick(&[1, 1, 1, 2]),
        every: *g.pick(p.every),
        twin: p.twin && kind(world) < 2 && !wide(world),
        cost: p.cost,
        init,
        threads: vec![],
        shared: false,
        sched: None,
        stalls: vec![],
        end: g.u32(),
        rel: false,
    };
    if threaded && kind(world) == 1 {
        let n = g.range(2, 4);
        for _ in 0..n {
            let lim = if g.chance(1, 4) { 12 } else { 6 };
            let k = g.range(1, lim);
            spec.threads.push((0..k).map(|_| op(&mut g, p.tw, &p)).collect());
        }
        spec.shared = g.chance(1, 2);
        spec.sched = Some(match g.below(if prop == "C04" { 8 } else { 6 }) {
            0..=2 => Policy::Random { seed: g.u64() >> 12, one_in: *g.pick(&[1, 2, 3, 6, 16, 50]) },
            3..=5 => Policy::Pct { seed: g.u64() >> 12, depth: g.range(1, 6) as u32, horizon: *g.pick(&[60, 200, 600, 2000]) },
            _ => Policy::Starve { seed: g.u64() >> 12, victim: g.below(n) as u8, burst: *g.pick(&[1, 3, 10, 40]) },
        });
        let ns = if prop == "C04" { g.below(4) } else if g.chance(1, 3) { 1 } else { 0 };
        for _ in 0..ns {
            spec.stalls.push(Stall {
                thread: g.below(n) as u8,
                at: {
                    let lim = *g.pick(&[20, 120, 600]);
                    g.below(lim)
                },
                steps: if g.chance(1, 2) { 0 } else { g.range(10, 1000) },
            });
        }
    }
    spec
}
