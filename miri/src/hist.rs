//! Single-threaded histories with references, borrows and user-code panics; what is looked for is undefined behaviour.

use crate::cow::{m_insert, size, Model};
use crate::{mix, Args, Rng};
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures, RleTreeConfig, SupportsInsert};
use sherman::{Borrow, BoundedCursor, RleTree, Slice, SliceRef};
use std::cell::Cell;
use std::ops::{Add, Sub};
use std::rc::Rc;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    /// callbacks left before one panics
    static FUSE: Cell<i64> = const { Cell::new(-1) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

#[inline(never)]
fn callback(destructor: bool) {
    CALLS.with(|c| c.set(c.get() + 1));
    if destructor && std::thread::panicking() {
        return;
    }
    let n = FUSE.with(|f| f.get());
    if n >= 0 {
        FUSE.with(|f| f.set(n - 1));
        if n == 0 {
            std::panic::resume_unwind(Box::new(()));
        }
    }
}

/// An index whose arithmetic and comparison are user code
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Ix(u32);

impl PartialOrd for Ix {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ix {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        callback(false);
        self.0.cmp(&o.0)
    }
}
impl Add for Ix {
    type Output = Ix;
    fn add(self, o: Ix) -> Ix {
        callback(false);
        Ix(self.0 + o.0)
    }
}
impl Sub for Ix {
    type Output = Ix;
    fn sub(self, o: Ix) -> Ix {
        callback(false);
        Ix(self.0.checked_sub(o.0).unwrap_or_else(|| std::panic::resume_unwind(Box::new(()))))
    }
}
impl sherman::Index for Ix {
    const ZERO: Ix = Ix(0);
}

pub struct Val<const J: bool> {
    tag: u32,
    off: Box<usize>,
    len: usize,
}

impl<const J: bool> Val<J> {
    fn new(tag: u32, off: usize, len: usize) -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Val { tag, off: Box::new(off), len }
    }
    fn get(&self) -> (u32, usize, usize) {
        (self.tag, *self.off, self.len)
    }
}
impl<const J: bool> Clone for Val<J> {
    fn clone(&self) -> Self {
        callback(false);
        Val::new(self.tag, *self.off, self.len)
    }
}
impl<const J: bool> Drop for Val<J> {
    fn drop(&mut self) {
        self.len = self.len.wrapping_add(*self.off) ^ 0xDEAD;
        LIVE.with(|l| l.set(l.get() - 1));
        callback(true);
    }
}
impl<const J: bool> Slice<Ix> for Val<J> {
    const MAY_JOIN: bool = J;
    fn split_at(&mut self, idx: Ix) -> Self {
        callback(false);
        let k = idx.0 as usize;
        let r = Val::new(self.tag, *self.off + k, self.len.wrapping_sub(k));
        self.len = k;
        r
    }
    fn try_join(mut self, other: Self) -> Result<Self, (Self, Self)> {
        callback(false);
        if J && self.tag == other.tag && *self.off + self.len == *other.off {
            self.len += other.len;
            Ok(self)
        } else {
            Err((self, other))
        }
    }
}

trait Feat<const J: bool, const M: usize>: RleTreeConfig<Ix, Val<J>, M> + SupportsInsert<Ix, Val<J>, M> + Sized {
    const COW: bool = false;
    fn dup(_: &Tree<J, M, Self>) -> Option<Tree<J, M, Self>>;
    fn insert_ref(_: &mut Tree<J, M, Self>, _: usize, _: Val<J>) -> Result<SliceRef<Ix, Val<J>, M>, Val<J>>;
    fn make_ref(_: &Tree<J, M, Self>, _: usize) -> Option<SliceRef<Ix, Val<J>, M>>;
}

type Tree<const J: bool, const M: usize, P> = RleTree<Ix, Val<J>, P, M>;

impl<const J: bool, const M: usize> Feat<J, M> for NoFeatures {
    fn dup(t: &Tree<J, M, Self>) -> Option<Tree<J, M, Self>> {
        Some(t.clone())
    }
    fn insert_ref(_: &mut Tree<J, M, Self>, _: usize, v: Val<J>) -> Result<SliceRef<Ix, Val<J>, M>, Val<J>> {
        Err(v)
    }
    fn make_ref(_: &Tree<J, M, Self>, _: usize) -> Option<SliceRef<Ix, Val<J>, M>> {
        None
    }
}
impl<const J: bool, const M: usize> Feat<J, M> for AllowCow {
    const COW: bool = true;
    fn dup(t: &Tree<J, M, Self>) -> Option<Tree<J, M, Self>> {
        Some(t.clone())
    }
    fn insert_ref(_: &mut Tree<J, M, Self>, _: usize, v: Val<J>) -> Result<SliceRef<Ix, Val<J>, M>, Val<J>> {
        Err(v)
    }
    fn make_ref(_: &Tree<J, M, Self>, _: usize) -> Option<SliceRef<Ix, Val<J>, M>> {
        None
    }
}
impl<const J: bool, const M: usize> Feat<J, M> for AllowSliceRefs {
    fn dup(_: &Tree<J, M, Self>) -> Option<Tree<J, M, Self>> {
        None
    }
    fn insert_ref(t: &mut Tree<J, M, Self>, p: usize, v: Val<J>) -> Result<SliceRef<Ix, Val<J>, M>, Val<J>> {
        let n = v.len;
        Ok(t.insert_ref(Ix(p as u32), v, Ix(n as u32)))
    }
    fn make_ref(t: &Tree<J, M, Self>, p: usize) -> Option<SliceRef<Ix, Val<J>, M>> {
        Some(t.get(Ix(p as u32)).make_ref())
    }
}

struct Handle<const J: bool, const M: usize, P: Feat<J, M>> {
    t: Tree<J, M, P>,
    m: Model,
    /// hit by a panic: contents unspecified
    hit: bool,
}

impl<const J: bool, const M: usize, P: Feat<J, M>> Handle<J, M, P> {
    fn check(&self) {
        if self.hit {
            let _ = catch_unwind(AssertUnwindSafe(|| {
                for e in self.t.iter(..).take(60) {
                    std::hint::black_box(e.slice().get());
                }
            }));
            return;
        }
        assert_eq!(self.t.size(), Ix(size(&self.m) as u32), "size");
        assert_eq!(self.t.number_of_slices(), self.m.len(), "number of slices");
        if !self.m.is_empty() {
            let got: Vec<_> = self.t.iter(..).map(|e| e.slice().get()).collect();
            assert_eq!(got, self.m, "contents");
        }
    }
}

pub fn run(a: &Args, mode: &str) -> (u64, usize) {
    let faults = mode == "panic";
    match (mode, a.w % 6) {
        ("refs", 0 | 1 | 2) | ("panic", 2) => go::<true, 1, AllowSliceRefs>(a, faults),
        ("refs", 3 | 4) | ("panic", 3) => go::<false, 1, AllowSliceRefs>(a, faults),
        ("refs", 5) => go::<true, 2, AllowSliceRefs>(a, faults),
        (_, 0) => go::<true, 1, NoFeatures>(a, faults),
        (_, 1) => go::<true, 2, AllowCow>(a, faults),
        (_, 4) => go::<false, 1, NoFeatures>(a, faults),
        _ => go::<true, 1, AllowCow>(a, faults),
    }
}

fn go<const J: bool, const M: usize, P: Feat<J, M>>(a: &Args, faults: bool) -> (u64, usize) {
    let mut g = Rng::new(a.w);
    let mut hs: Vec<Handle<J, M, P>> = vec![];
    let mut refs: Vec<Rc<SliceRef<Ix, Val<J>, M>>> = vec![];
    // fields are dropped in order: a borrow before the reference it comes from
    let mut borrows: Vec<(Borrow<'static, Val<J>>, (u32, usize, usize), Rc<SliceRef<Ix, Val<J>, M>>)> = vec![];
    let mut tags = 0;
    let mut done = 0;
    let n = [8, 16, 30, 45][g.below(4)];
    let mut hash = a.w;
    let mut drop_panic = false;
    for step in 0..n.min(a.cap) {
        done += 1;
        if hs.is_empty() || hs.len() < 3 && g.chance(1, 12) {
            hs.push(Handle { t: RleTree::new_empty(), m: vec![], hit: false });
        }
        let k = g.below(hs.len());
        let armed = faults && g.chance(1, 3);
        let most = [3, 12, 60][g.below(3)];
        let fuse = if armed { g.below(most) as i64 } else { -1 };
        let kind = g.below(24);
        let h = &mut hs[k];
        let sz = size(&h.m);
        let before = CALLS.with(|c| c.get());
        FUSE.with(|f| f.set(fuse));
        let r = catch_unwind(AssertUnwindSafe(|| match kind {
            0..=12 => {
                if !borrows.is_empty() {
                    return None;
                }
                let pos = match g.below(4) {
                    0 => sz,
                    1 => 0,
                    2 if !h.m.is_empty() => {
                        let i = g.below(h.m.len());
                        h.m[..i].iter().map(|r| r.2).sum()
                    }
                    _ => g.below(sz + 1),
                };
                let len = 1 + g.below(4);
                tags += 1;
                let mut v = (tags, 5, len);
                if J && !h.hit && g.chance(1, 3) {
                    let mut p = 0;
                    for r in &h.m {
                        if p + r.2 == pos {
                            v = (r.0, r.1 + r.2, len);
                        }
                        p += r.2;
                    }
                    let mut m = h.m.clone();
                    m_insert(&mut m, pos, v, true);
                    if m.len() < h.m.len() {
                        v = (tags, 5, len);
                    }
                }
                let mut m = h.m.clone();
                m_insert(&mut m, pos, v, J);
                let s = Val::new(v.0, v.1, len);
                if g.chance(1, 3) {
                    match P::insert_ref(&mut h.t, pos, s) {
                        Ok(r) => refs.push(Rc::new(r)),
                        Err(s) => h.t.insert(Ix(pos as u32), s, Ix(len as u32)),
                    }
                } else {
                    h.t.insert(Ix(pos as u32), s, Ix(len as u32));
                }
                h.m = m;
                None
            }
            13 | 14 => {
                let d = P::dup(&h.t)?;
                Some(Handle { t: d, m: h.m.clone(), hit: h.hit })
            }
            15 | 16 if sz > 0 => {
                if let Some(r) = P::make_ref(&h.t, g.below(sz)) {
                    refs.push(Rc::new(r));
                }
                None
            }
            17 if !refs.is_empty() => {
                let r = (*refs[g.below(refs.len())]).clone();
                refs.push(Rc::new(r));
                None
            }
            18 | 19 if !refs.is_empty() => {
                let r = refs.swap_remove(g.below(refs.len()));
                drop(r);
                None
            }
            20 if !refs.is_empty() => {
                let r = refs[g.below(refs.len())].clone();
                let _ = r.try_range();
                // SAFETY: `r` is kept next to the borrow, and what it points to neither moved nor dropped before it
                let b: Option<Borrow<'static, Val<J>>> = unsafe { std::mem::transmute(r.try_borrow_slice()) };
                if let Some(b) = b {
                    let v = b.get();
                    borrows.push((b, v, r));
                }
                None
            }
            21 | 22 if !borrows.is_empty() => {
                let (b, v, r) = borrows.swap_remove(g.below(borrows.len()));
                assert_eq!(b.get(), v, "borrowed slice changed");
                drop(b);
                drop(r);
                None
            }
            _ => {
                if sz > 0 && !h.hit {
                    let p = Ix(g.below(sz) as u32);
                    let c: BoundedCursor = h.t.cursor_to(p);
                    std::hint::black_box(h.t.get_with_cursor(c, p).slice().get());
                }
                None
            }
        }));
        let fired = fuse >= 0 && FUSE.with(|f| f.get()) < 0;
        FUSE.with(|f| f.set(-1));
        hash = mix(hash ^ CALLS.with(|c| c.get()) ^ (kind as u64) << 40);
        match r {
            Ok(Some(d)) => {
                if hs.len() < 4 {
                    hs.push(d);
                }
            }
            Ok(None) => {}
            Err(e) => {
                assert!(fired || hs[k].hit, "operation {kind} panicked by itself: {:?}", e.downcast_ref::<&str>());
                hs[k].hit = true;
                drop_panic = true;
            }
        }
        let _ = before;
        if kind == 23 && hs.len() > 1 || g.chance(1, 16) {
            let k = g.below(hs.len());
            let h = hs.swap_remove(k);
            drop_tree(h, faults && g.chance(1, 4), &mut g);
        }
        if step % 4 == 0 {
            hs.iter().for_each(|h| h.check());
        }
        for (b, v, _) in &borrows {
            assert_eq!(b.get(), *v, "borrowed slice changed");
        }
    }
    hs.iter().for_each(|h| h.check());
    // everything goes, in a random order
    while !hs.is_empty() || !refs.is_empty() || !borrows.is_empty() {
        match g.below(3) {
            0 if !hs.is_empty() => {
                let h = hs.swap_remove(g.below(hs.len()));
                drop_tree(h, false, &mut g);
            }
            1 if !refs.is_empty() => drop(refs.swap_remove(g.below(refs.len()))),
            2 if !borrows.is_empty() => {
                let (b, v, r) = borrows.swap_remove(g.below(borrows.len()));
                assert_eq!(b.get(), v, "borrowed slice changed");
                drop(b);
                drop(r);
            }
            _ => {}
        }
    }
    let live = LIVE.with(|l| l.get());
    assert!(live >= 0, "slices destroyed twice");
    assert!(live == 0 || drop_panic || faults, "{live} slices left");
    (hash, done)
}

fn drop_tree<T>(t: T, fault: bool, g: &mut Rng) {
    if fault {
        FUSE.with(|f| f.set(g.below(6) as i64));
    }
    let _ = catch_unwind(AssertUnwindSafe(|| drop(t)));
    FUSE.with(|f| f.set(-1));
}
