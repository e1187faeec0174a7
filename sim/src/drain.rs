//! Draining a range, compared with the model.

use crate::alloc::SutFlag;
use crate::ctx::{begin_op, violation};
use crate::feat::Feat;
use crate::rng::Rng;
use crate::spec::Op;
use crate::types::{then, without_prefix, Ix, Val, Pos, ORIGIN};
use crate::world::{ok, World};

pub fn drain_op<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize>(w: &mut World<I, MJ, P, M>, op: &Op) {
    let Some(hi) = (0..crate::world::SLOTS).find(|i| w.hs[*i].is_some()) else { return };
    let mut h = w.hs[hi].take().unwrap();
    if h.poisoned || h.m.runs.is_empty() {
        w.hs[hi] = Some(h);
        return;
    }
    let mut x = crate::geom::read_pos(I::DIM, &h.m, op.a, op.b);
    let mut y = if op.c % 4 == 0 { h.m.size() } else { crate::geom::read_pos(I::DIM, &h.m, op.c, op.d) };
    if y < x {
        std::mem::swap(&mut x, &mut y);
    }
    if x == y {
        y = h.m.size();
    }
    // the slices of exactly that range, split at its ends
    let (mut inside, mut rest) = (vec![], vec![]);
    let mut p = ORIGIN;
    for r in &h.m.runs {
        let e = then(p, r.len);
        let (a, b) = (p.max(x), e.min(y));
        if a < b {
            inside.push((a, b));
            if p < a {
                let mut l = r.clone();
                l.len = without_prefix(a, p);
                rest.push(l);
            }
            if b < e {
                let mut l = r.clone();
                l.len = without_prefix(e, b);
                l.off = then(l.off, without_prefix(b, p));
                if MJ && w.pol == 1 {
                    l.off = ORIGIN;
                }
                rest.push(l);
            }
        } else {
            rest.push(r.clone());
        }
        p = e;
    }
    let mut g = Rng::new(op.d as u64);
    let take = g.below(inside.len() as u64 + 2) as usize;
    begin_op();
    let mut got: Vec<(Pos, Pos, Val<MJ>)> = vec![];
    {
        let mut d = ok("drain", || h.t.drain(I::dec(x)..I::dec(y)));
        let (mut lo, mut hi) = (0, inside.len());
        for _ in 0..take {
            let front = g.chance(1, 2);
            let r = ok("step of a drain", || {
                let x = if front { d.next() } else { d.next_back() };
                x.map(|(r, s)| {
                    let _f = SutFlag::set(false);
                    (r.start.enc(), r.end.enc(), s)
                })
            });
            match r {
                None if lo == hi => {}
                Some(r) if lo < hi => {
                    let k = if front {
                        lo += 1;
                        lo - 1
                    } else {
                        hi -= 1;
                        hi
                    };
                    if (r.0, r.1) != inside[k] {
                        violation(format!("drain yields {:?}..{:?}, expected {:?}", r.0, r.1, inside[k]));
                    }
                    got.push(r);
                }
                r => violation(format!("drain yields a slice: {}, {} left", r.is_some(), hi - lo)),
            }
        }
        ok("end of a drain", || drop(d));
    }
    drop(got);
    h.m.runs = rest;
    World::<I, MJ, P, M>::check_full("drained tree", &h.t, &h.m, false);
    w.hs[hi] = Some(h);
}
