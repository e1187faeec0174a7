//! Plain run-length encoding as the crate itself provides it: `Constant` slices and primitive indexes, up to the
//! largest size an index type can hold. Only what such a tree holds is modelled here; the engine in `world.rs` has
//! everything else.

use crate::ctx::{ctx, violation};
use crate::rng::Rng;
use crate::spec::Op;
use crate::stats::stats;
use crate::types::Cur;
use crate::world::ok;
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures, RleTreeConfig, SupportsInsert};
use sherman::{BoundedCursor, Constant, Cursor, Index, NoCursor, RleTree, Slice, SliceEntry, SliceRef};

/// An index type of the crate
trait Prim: Index + std::fmt::Display {
    const MAX: u128;
    fn of(x: u128) -> Self;
    fn to(self) -> u128;
}

macro_rules! prims {
    ($($t:ident)*) => {$(
        impl Prim for $t {
            const MAX: u128 = $t::MAX as u128;
            fn of(x: u128) -> Self {
                x as $t
            }
            fn to(self) -> u128 {
                self as u128
            }
        }
    )*};
}
prims!(u8 u16 u32 u64 u128 usize);

/// A slice: plain values of different layouts
trait Value<I>: Slice<I> + Clone + 'static {
    fn of(v: u8) -> Self;
    /// the value; one that was moved around must still be intact
    fn to(&self) -> Option<u8>;
}
impl<I> Value<I> for Constant<u8> {
    fn of(v: u8) -> Self {
        Constant(v)
    }
    fn to(&self) -> Option<u8> {
        Some(self.0)
    }
}
impl<I> Value<I> for Constant<Box<u8>> {
    fn of(v: u8) -> Self {
        Constant(Box::new(v))
    }
    fn to(&self) -> Option<u8> {
        Some(*self.0)
    }
}

/// Never merges
#[derive(Clone)]
struct Whole<T>(T);

impl<I, T: Clone> Slice<I> for Whole<T> {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: I) -> Self {
        self.clone()
    }
}
impl<I> Value<I> for Whole<()> {
    fn of(_: u8) -> Self {
        Whole(())
    }
    fn to(&self) -> Option<u8> {
        None
    }
}

/// More aligned than what the tree keeps next to it
#[derive(Clone)]
#[repr(align(64))]
struct Wide([u8; 64]);

impl<I> Value<I> for Whole<Wide> {
    fn of(v: u8) -> Self {
        Whole(Wide([v; 64]))
    }
    fn to(&self) -> Option<u8> {
        let x = &self.0 .0;
        if x as *const _ as usize % 64 != 0 || x.iter().any(|y| *y != x[0]) {
            violation("a slice is misaligned or torn");
        }
        Some(x[0])
    }
}
impl<I> Value<I> for Whole<[u64; 40]> {
    fn of(v: u8) -> Self {
        Whole([v as u64; 40])
    }
    fn to(&self) -> Option<u8> {
        if self.0.iter().any(|y| *y != self.0[0]) {
            violation("a slice is torn");
        }
        Some(self.0[0] as u8)
    }
}

/// What the feature sets differ in
trait Kinds<I, V, const M: usize>: RleTreeConfig<I, V, M> + SupportsInsert<I, V, M> {
    type Ref;
    fn dup(_: &RleTree<I, V, Self, M>) -> Option<RleTree<I, V, Self, M>> {
        None
    }
    fn make_ref(_: &SliceEntry<'_, I, V, Self, M>) -> Option<Self::Ref> {
        None
    }
    /// start, end and contents
    fn read(_: &Self::Ref) -> (u128, u128, Option<u8>) {
        unreachable!()
    }
}
impl<I: Prim, V: Value<I>, const M: usize> Kinds<I, V, M> for NoFeatures {
    type Ref = ();
    fn dup(t: &RleTree<I, V, Self, M>) -> Option<RleTree<I, V, Self, M>> {
        Some(t.clone())
    }
}
impl<I: Prim, V: Value<I>, const M: usize> Kinds<I, V, M> for AllowCow {
    type Ref = ();
    fn dup(t: &RleTree<I, V, Self, M>) -> Option<RleTree<I, V, Self, M>> {
        Some(t.clone())
    }
}
impl<I: Prim, V: Value<I>, const M: usize> Kinds<I, V, M> for AllowSliceRefs {
    type Ref = SliceRef<I, V, M>;
    fn make_ref(e: &SliceEntry<'_, I, V, Self, M>) -> Option<Self::Ref> {
        Some(e.make_ref())
    }
    fn read(r: &Self::Ref) -> (u128, u128, Option<u8>) {
        let (a, b) = (r.range(), r.borrow_slice());
        (a.start.to(), a.end.to(), b.to())
    }
}

#[derive(Clone, Copy, Debug)]
struct Run {
    v: u8,
    n: u128,
    /// what references to it refer to
    id: u64,
}

/// The sequence of runs
#[derive(Clone, Default)]
struct Runs(Vec<Run>);

impl Runs {
    fn size(&self) -> u128 {
        self.0.iter().map(|r| r.n).sum()
    }

    /// Run with the position in it or starting there, and the offset from its start
    fn find(&self, mut at: u128) -> (usize, u128) {
        for (i, r) in self.0.iter().enumerate() {
            if at < r.n {
                return (i, at);
            }
            at -= r.n;
        }
        (self.0.len(), at)
    }

    fn start(&self, i: usize) -> u128 {
        self.0[..i].iter().map(|r| r.n).sum()
    }

    /// Number of runs the inserted one merged with
    fn insert(&mut self, at: u128, new: Run, join: bool, fresh: u64) -> u32 {
        let (mut i, off) = self.find(at);
        if off > 0 {
            let r = self.0[i];
            self.0[i].n = off;
            self.0.insert(i + 1, Run { n: r.n - off, id: fresh, ..r });
            i += 1;
        }
        if join && i > 0 && self.0[i - 1].v == new.v {
            self.0[i - 1].n += new.n;
            1
        } else if join && i < self.0.len() && self.0[i].v == new.v {
            self.0[i].n += new.n;
            1
        } else {
            self.0.insert(i, new);
            0
        }
    }

    fn entry<V: Value<I>, I>(&self, i: usize) -> (u128, u128, u128, Option<u8>) {
        let s = self.start(i);
        let r = self.0[i];
        // what a value of this type can hold
        (s, s + r.n, r.n, V::of(r.v).to())
    }
}

pub fn run(op: &Op) {
    let before = std::mem::replace(&mut ctx().what, String::new());
    type C = Constant<u8>;
    type B = Constant<Box<u8>>;
    match op.a % 16 {
        0 => history::<u8, C, NoFeatures, 1>(op),
        1 => history::<u8, B, AllowCow, 3>(op),
        2 => history::<u16, C, AllowCow, 1>(op),
        3 => history::<u32, B, AllowSliceRefs, 2>(op),
        4 => history::<u64, B, NoFeatures, 2>(op),
        5 => history::<u128, C, AllowSliceRefs, 1>(op),
        6 => history::<usize, B, AllowCow, 2>(op),
        7 => history::<u8, C, AllowSliceRefs, 3>(op),
        8 => history::<u8, C, AllowCow, 1>(op),
        9 => history::<u128, B, NoFeatures, 1>(op),
        10 => history::<u8, Whole<()>, NoFeatures, 1>(op),
        11 => history::<usize, Whole<()>, AllowSliceRefs, 2>(op),
        12 => history::<u32, Whole<()>, AllowCow, 1>(op),
        13 => history::<u8, Whole<Wide>, AllowSliceRefs, 1>(op),
        14 => history::<u64, Whole<Wide>, AllowCow, 2>(op),
        _ => history::<u16, Whole<[u64; 40]>, AllowSliceRefs, 3>(op),
    }
    ctx().what = before;
}

fn history<I: Prim, V: Value<I>, P: Kinds<I, V, M>, const M: usize>(op: &Op) {
    let name = std::any::type_name::<RleTree<I, V, P, M>>();
    let mut g = Rng::new(op.b as u64 | (op.d as u64) << 32);
    let kinds = g.range(2, 9);
    // how long runs are, compared with what is left of the index type
    let part = *g.pick(&[2, 8, 40, 200]);
    let mut fresh = 0;
    let mut hs: Vec<(RleTree<I, V, P, M>, Runs)> = vec![];
    // references to slices of the only handle there is where there are references
    let mut refs: Vec<(P::Ref, u64)> = vec![];
    hs.push((ok("new_empty", || RleTree::new_empty()), Runs::default()));
    let mut last: Cur = Cur::new_empty();
    let mut at_last = 0;
    let st = stats();
    for step in 0..op.c % 90 {
        ctx().what = format!("{name}, step {step} of the history of {op:?}");
        let i = g.below(hs.len() as u64) as usize;
        if hs.len() < 3 && g.chance(1, 12) {
            let (t, m) = &hs[i];
            if let Some(c) = ok("clone", || P::dup(t)) {
                let m = m.clone();
                hs.push((c, m));
            }
            continue;
        }
        if hs.len() > 1 && g.chance(1, 20) {
            let (t, _) = hs.swap_remove(i);
            ok("drop", || drop(t));
            continue;
        }
        let (t, m) = &mut hs[i];
        let size = m.size();
        let left = I::MAX - size;
        if left > 0 && g.chance(7, 10) {
            // a position: anywhere, between two runs, or where the last one was
            let at = match g.below(6) {
                0 => 0,
                1 => size,
                2 => at_last,
                3 | 4 => m.start(g.below(m.0.len() as u64 + 1) as usize),
                _ => g.u64() as u128 * 7919,
            };
            let at = if at > size { at % (size + 1) } else { at };
            let (r, off) = m.find(at);
            let mut v = g.below(kinds) as u8;
            if V::MAY_JOIN && off > 0 && v == m.0[r].v {
                // merging with both sides is a known finding of its own
                v = (v + 1) % kinds as u8;
            }
            let n = match g.below(30) {
                0 if step > 8 => left,
                1..=6 => 1,
                _ => (left / part).min(1 + g.u64() as u128 % (left / part).max(1)),
            }
            .clamp(1, left);
            at_last = at + n;
            ctx().log(at as u64 ^ (n as u64) << 20 ^ (v as u64) << 56);
            let s = || V::of(v);
            match g.below(4) {
                0 => ok("insert", || t.insert(I::of(at), s(), I::of(n))),
                1 => {
                    let c = std::mem::take(&mut last);
                    last = ok("insert_with_cursor", || t.insert_with_cursor(c, I::of(at), s(), I::of(n)));
                }
                2 => drop(ok("insert_with_cursor", || t.insert_with_cursor(NoCursor, I::of(at), s(), I::of(n)))),
                _ => {
                    let c: BoundedCursor<4> = match size > 0 {
                        true => ok("cursor_to", || t.cursor_to(I::of(at.min(size - 1)))),
                        false => BoundedCursor::new_empty(),
                    };
                    drop(ok("insert_with_cursor", || t.insert_with_cursor(c, I::of(at), s(), I::of(n))))
                }
            }
            fresh += 2;
            let joined = m.insert(at, Run { v, n, id: fresh }, V::MAY_JOIN, fresh + 1);
            st.add("Constant: insertions", 1);
            st.add("Constant: insertions merging", joined as u64);
            if m.size() == I::MAX {
                st.add("Constant: trees of the largest size", 1);
            }
        }
        let (t, m) = &hs[i];
        let size = m.size();
        if ok("size", || t.size()).to() != size {
            violation(format!("size is {}, expected {size}", t.size()));
        }
        let n = ok("number_of_slices", || t.number_of_slices());
        if n != m.0.len() {
            violation(format!("number_of_slices is {n}, but there are {} runs", m.0.len()));
        }
        if size > 0 && g.chance(1, 2) {
            let at = match g.chance(1, 2) {
                true => (g.u64() as u128) << 64 | g.u64() as u128,
                false => m.start(g.below(m.0.len() as u64) as usize),
            } % size;
            let (r, _) = m.find(at);
            let want = m.entry::<V, I>(r);
            let e = ok("get", || t.get(I::of(at)));
            let got = read(&e);
            if got != want {
                violation(format!("get({at}) is (start, end, size, value) {got:?}, expected {want:?}"));
            }
            if refs.len() < 12 && g.chance(1, 2) {
                if let Some(x) = ok("make_ref", || P::make_ref(&e)) {
                    refs.push((x, m.0[r].id));
                }
            }
        }
        if !refs.is_empty() {
            let k = g.below(refs.len() as u64) as usize;
            let (x, id) = &refs[k];
            let got = ok("reading through a reference", || P::read(x));
            let i = m.0.iter().position(|r| r.id == *id).unwrap();
            let want = m.entry::<V, I>(i);
            if got != (want.0, want.1, want.3) {
                violation(format!("a reference gives (start, end, value) {got:?}, expected {:?}", (want.0, want.1, want.3)));
            }
            if g.chance(1, 6) {
                let x = refs.swap_remove(k);
                ok("dropping a reference", || drop(x));
            }
        }
        if g.chance(1, 4) {
            iterate(&mut g, t, m);
        }
    }
    ctx().what = format!("{name}, after the history of {op:?}");
    for (t, m) in &hs {
        iterate(&mut g, t, m);
    }
    let keep = g.below(13) as usize;
    ok("dropping references", || refs.truncate(keep));
    while !hs.is_empty() {
        let i = g.below(hs.len() as u64) as usize;
        let (t, _) = hs.swap_remove(i);
        ok("drop", || drop(t));
    }
    ok("dropping references", || drop(refs));
}

fn read<I: Prim, V: Value<I>, P: Kinds<I, V, M>, const M: usize>(
    e: &SliceEntry<'_, I, V, P, M>,
) -> (u128, u128, u128, Option<u8>) {
    let (r, n, v) = ok("entry", || (e.range(), e.size(), e.slice()));
    (r.start.to(), r.end.to(), n.to(), v.to())
}

/// Entries of a range, taken from both ends
fn iterate<I: Prim, V: Value<I>, P: Kinds<I, V, M>, const M: usize>(g: &mut Rng, t: &RleTree<I, V, P, M>, m: &Runs) {
    let size = m.size();
    let (mut lo, mut hi) = (0, size);
    let mut it = if size == 0 || g.chance(1, 2) {
        ok("iter", || t.iter(..))
    } else {
        lo = g.u64() as u128 % size;
        hi = lo + 1 + g.u64() as u128 % (size - lo);
        ok("iter", || t.iter(I::of(lo)..I::of(hi)))
    };
    let mut front = if size == 0 { 0 } else { m.find(lo).0 };
    let mut back = if size == 0 { 0 } else { m.find(hi - 1).0 + 1 };
    let reverse = g.below(5);
    loop {
        let fwd = g.below(4) >= reverse;
        let e = ok("iteration", || if fwd { it.next() } else { it.next_back() });
        let got = e.map(|e| read(&e));
        let want = (front < back).then(|| m.entry::<V, I>(if fwd { front } else { back - 1 }));
        if got != want {
            violation(format!(
                "iteration over {lo}..{hi} yields (start, end, size, value) {got:?} from the {}, expected {want:?}",
                if fwd { "front" } else { "back" }
            ));
        }
        if got.is_none() {
            break;
        }
        if fwd {
            front += 1;
        } else {
            back -= 1;
        }
    }
}
