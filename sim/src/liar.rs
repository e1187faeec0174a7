//! Trees of user types that break every law asked of them: index arithmetic and comparisons that give anything,
//! slices that merge at random, callbacks that panic or use references to the tree. Answers are worth nothing then;
//! memory must stay sound all the same: only live slices are ever handed out, each is destroyed exactly once, and
//! nothing the crate merely assumes in release builds is found wrong.

use crate::alloc::SutFlag;
use crate::ctx::{ctx, inject, violation, Cb};
use crate::geom::hint;
use crate::rng::Rng;
use crate::spec::Op;
use crate::stats::stats;
use crate::types::{Cur, Val, ORIGIN};
use crate::world::{sut, Pan};
use sherman::range::{EndBound, RangeBounds, StartBound};
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures, RleTreeConfig, SupportsInsert};
use sherman::{Borrow, Index, RleTree, Slice, SliceEntry, SliceRef};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::ops::{Add, Range, Sub};
use std::rc::Rc;

/// What user code does wrong, with one chance in so many (0: never)
struct Lies {
    g: Rng,
    cmp: u64,
    sum: u64,
    join: u64,
    panic: u64,
    reent: u64,
    /// the same kind of wrong answer all the time
    fixed: Option<u64>,
    told: [u64; 4],
}

static mut LIES: Option<Lies> = None;
type Hook = Option<Box<dyn FnMut(&mut Rng)>>;
static mut REENT: Hook = None;

#[allow(static_mut_refs)]
fn lies() -> Option<&'static mut Lies> {
    unsafe { LIES.as_mut() }
}

#[allow(static_mut_refs)]
fn reent() -> &'static mut Hook {
    unsafe { &mut REENT }
}

fn chance(n: u64, f: impl Fn(&mut Lies) -> u64) -> bool {
    lies().is_some_and(|l| {
        let n = if n == 0 { f(l) } else { n };
        n > 0 && l.g.chance(1, n)
    })
}

/// Start of every callback
fn enter(kind: Cb) {
    if std::thread::panicking() {
        return;
    }
    if chance(0, |l| l.reent) {
        if let Some(mut h) = reent().take() {
            let mut g = Rng::new(lies().unwrap().g.u64());
            lies().unwrap().told[3] += 1;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| h(&mut g)));
            *reent() = Some(h);
            if let Err(p) = r {
                std::panic::resume_unwind(p);
            }
        }
    }
    if chance(0, |l| l.panic) {
        lies().unwrap().told[2] += 1;
        inject(kind);
    }
}

#[derive(Copy, Debug)]
pub struct Lie(i64);

impl Clone for Lie {
    fn clone(&self) -> Self {
        result(Cb::Range, self.0, 0, self.0)
    }
}

impl PartialEq for Lie {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Lie {}
impl PartialOrd for Lie {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        let c = self.cmp(o);
        (!chance(0, |l| 4 * l.cmp)).then_some(c)
    }
}
impl Ord for Lie {
    fn cmp(&self, o: &Self) -> Ordering {
        let _f = SutFlag::set(false);
        enter(Cb::Cmp);
        if chance(0, |l| l.cmp) {
            let l = lies().unwrap();
            l.told[0] += 1;
            return match l.fixed.unwrap_or(l.g.u64()) % 3 {
                0 => Ordering::Less,
                1 => Ordering::Equal,
                _ => Ordering::Greater,
            };
        }
        self.0.cmp(&o.0)
    }
}

fn result(kind: Cb, a: i64, b: i64, right: i64) -> Lie {
    let _f = SutFlag::set(false);
    enter(kind);
    if chance(0, |l| l.sum) {
        let l = lies().unwrap();
        l.told[1] += 1;
        return Lie(match l.fixed.unwrap_or(l.g.u64()) % 8 {
            0 => 0,
            1 => a,
            2 => b,
            3 => right.wrapping_add(1),
            4 => right.wrapping_sub(1),
            5 => right.wrapping_abs().wrapping_neg(),
            6 => i64::MAX,
            _ => l.g.below(200) as i64 - 40,
        });
    }
    Lie(right)
}

impl Add for Lie {
    type Output = Lie;
    fn add(self, o: Lie) -> Lie {
        result(Cb::Add, self.0, o.0, self.0.wrapping_add(o.0))
    }
}
impl Sub for Lie {
    type Output = Lie;
    fn sub(self, o: Lie) -> Lie {
        result(Cb::Sub, self.0, o.0, self.0.wrapping_sub(o.0))
    }
}
impl Index for Lie {
    const ZERO: Lie = Lie(0);
}

struct S<const MJ: bool>(Val<MJ>);

impl<const MJ: bool> Clone for S<MJ> {
    fn clone(&self) -> Self {
        let _f = SutFlag::set(false);
        self.0.check("clone");
        enter(Cb::Clone);
        S(self.0.clone())
    }
}

/// A range that answers as it likes, differently every time
#[derive(Debug)]
struct LieRange([Lie; 4]);

impl LieRange {
    fn any(&self) -> Option<&Lie> {
        let _f = SutFlag::set(false);
        enter(Cb::Range);
        // without lies it's a proper range
        let n = lies().map_or(0, |l| l.g.below(5)) as usize;
        self.0.get(n)
    }
}

impl RangeBounds<Lie> for LieRange {
    fn start_bound(&self) -> StartBound<&Lie> {
        self.any().map_or(StartBound::Unbounded, StartBound::Included)
    }
    fn end_bound(&self) -> EndBound<&Lie> {
        match self.any() {
            None => EndBound::Unbounded,
            Some(i) if lies().is_some_and(|l| l.g.chance(1, 2)) => EndBound::Excluded(i),
            Some(i) => EndBound::Included(i),
        }
    }
    fn contains<U>(&self, _: &U) -> bool
    where
        Lie: PartialOrd<U>,
        U: ?Sized + PartialOrd<Lie>,
    {
        chance(2, |_| 0)
    }
    fn starts_after_end(&self) -> bool {
        chance(20, |_| 0)
    }
    fn is_empty_naive(&self) -> bool {
        chance(20, |_| 0)
    }
    fn overlaps_naive<R: RangeBounds<Lie>>(&self, _: R) -> bool {
        chance(20, |_| 0)
    }
}

impl<const MJ: bool> S<MJ> {
    fn new(tag: u32) -> Self {
        let _f = SutFlag::set(false);
        S(Val::new(tag, ORIGIN, ORIGIN))
    }
}

impl<const MJ: bool> Slice<Lie> for S<MJ> {
    const MAY_JOIN: bool = MJ;

    fn split_at(&mut self, _: Lie) -> Self {
        let _f = SutFlag::set(false);
        self.0.check("split");
        enter(Cb::Split);
        S::new(self.0.tag)
    }

    fn try_join(self, other: Self) -> Result<Self, (Self, Self)> {
        let _f = SutFlag::set(false);
        self.0.check("join (left)");
        other.0.check("join (right)");
        enter(Cb::Join);
        if chance(0, |l| l.join) {
            drop(self);
            return Ok(other);
        }
        Err((self, other))
    }
}

impl<const MJ: bool> Drop for S<MJ> {
    fn drop(&mut self) {
        let _f = SutFlag::set(false);
        self.0.check("drop");
        if chance(0, |l| l.reent) && !std::thread::panicking() {
            if let Some(mut h) = reent().take() {
                let l = lies().unwrap();
                let mut g = Rng::new(l.g.u64());
                // a destructor that panics may lose memory (C06 has those)
                let panics = std::mem::take(&mut l.panic);
                h(&mut g);
                if let Some(l) = lies() {
                    l.panic = panics;
                }
                *reent() = Some(h);
            }
        }
    }
}

trait Kinds<const MJ: bool, const M: usize>: RleTreeConfig<Lie, S<MJ>, M> + SupportsInsert<Lie, S<MJ>, M> + 'static {
    type Ref: 'static;
    fn dup(_: &RleTree<Lie, S<MJ>, Self, M>) -> Option<RleTree<Lie, S<MJ>, Self, M>> {
        None
    }
    fn make_ref(_: &SliceEntry<'_, Lie, S<MJ>, Self, M>) -> Option<Self::Ref> {
        None
    }
    fn insert_ref(
        t: &mut RleTree<Lie, S<MJ>, Self, M>,
        c: Option<Cur>,
        i: Lie,
        s: S<MJ>,
        z: Lie,
    ) -> (Option<Cur>, Option<Self::Ref>);
    fn copy(_: &Self::Ref) -> Self::Ref {
        unreachable!()
    }
    fn look(_: &Self::Ref, _: u64) -> Option<Range<Lie>> {
        None
    }
    fn borrow(_: &Self::Ref) -> Option<Borrow<'_, S<MJ>>> {
        None
    }
}

macro_rules! no_refs {
    ($($t:ident)*) => {$(
        impl<const MJ: bool, const M: usize> Kinds<MJ, M> for $t {
            type Ref = ();
            fn dup(t: &RleTree<Lie, S<MJ>, Self, M>) -> Option<RleTree<Lie, S<MJ>, Self, M>> {
                Some(t.clone())
            }
            fn insert_ref(
                t: &mut RleTree<Lie, S<MJ>, Self, M>,
                c: Option<Cur>,
                i: Lie,
                s: S<MJ>,
                z: Lie,
            ) -> (Option<Cur>, Option<Self::Ref>) {
                match c {
                    Some(c) => (Some(t.insert_with_cursor(c, i, s, z)), None),
                    None => {
                        t.insert(i, s, z);
                        (None, None)
                    }
                }
            }
        }
    )*};
}
no_refs!(NoFeatures AllowCow);

impl<const MJ: bool, const M: usize> Kinds<MJ, M> for AllowSliceRefs {
    type Ref = SliceRef<Lie, S<MJ>, M>;
    fn make_ref(e: &SliceEntry<'_, Lie, S<MJ>, Self, M>) -> Option<Self::Ref> {
        Some(e.make_ref())
    }
    fn insert_ref(
        t: &mut RleTree<Lie, S<MJ>, Self, M>,
        c: Option<Cur>,
        i: Lie,
        s: S<MJ>,
        z: Lie,
    ) -> (Option<Cur>, Option<Self::Ref>) {
        match c {
            Some(c) => {
                let (c, r) = t.insert_ref_with_cursor(c, i, s, z);
                (Some(c), Some(r))
            }
            None => (None, Some(t.insert_ref(i, s, z))),
        }
    }
    fn copy(r: &Self::Ref) -> Self::Ref {
        r.clone()
    }
    fn look(r: &Self::Ref, k: u64) -> Option<Range<Lie>> {
        match k % 5 {
            0 => return r.try_range(),
            1 => drop(r.try_cursor::<Cur>()),
            2 => drop((r.is_valid(), r.can_borrow())),
            3 => return Some(r.range()),
            _ => drop(r.cursor::<Cur>()),
        }
        None
    }
    fn borrow(r: &Self::Ref) -> Option<Borrow<'_, S<MJ>>> {
        r.try_borrow_slice()
    }
}

pub fn run(op: &Op) {
    let before = std::mem::replace(&mut ctx().what, format!("misbehaving user types, {op:?}"));
    match op.a % 9 {
        0 => history::<true, NoFeatures, 1>(op),
        1 => history::<false, NoFeatures, 2>(op),
        2 => history::<true, AllowCow, 1>(op),
        3 => history::<false, AllowCow, 3>(op),
        4 => history::<true, AllowCow, 2>(op),
        5 => history::<true, AllowSliceRefs, 1>(op),
        6 => history::<false, AllowSliceRefs, 1>(op),
        7 => history::<true, AllowSliceRefs, 2>(op),
        _ => history::<true, AllowSliceRefs, 3>(op),
    }
    ctx().what = before;
}

type Refs<R> = Rc<RefCell<Vec<Rc<R>>>>;

fn through<const MJ: bool, P: Kinds<MJ, M>, const M: usize>(refs: &Refs<P::Ref>, g: &mut Rng, panics: bool) {
    let n = refs.borrow().len();
    if n == 0 {
        return;
    }
    let k = g.below(n as u64) as usize;
    let x = refs.borrow()[k].clone();
    match g.below(6) {
        0 if n < 16 => {
            let y = P::copy(&x);
            refs.borrow_mut().push(Rc::new(y));
        }
        1 => {
            let y = refs.borrow_mut().swap_remove(k);
            drop((x, y));
        }
        2 | 3 => {
            if let Some(b) = P::borrow(&x) {
                b.0.check("borrowed slice");
            }
        }
        _ => {
            let mut k = g.u64();
            if !panics {
                k %= 3;
            }
            drop(P::look(&x, k));
        }
    }
}

type Trees<const MJ: bool, P, const M: usize> = Rc<RefCell<Vec<Rc<RefCell<RleTree<Lie, S<MJ>, P, M>>>>>>;

/// User code that uses the trees themselves, as far as safe code can at that moment
fn on_tree<const MJ: bool, P: Kinds<MJ, M>, const M: usize>(hs: &Trees<MJ, P, M>, refs: &Refs<P::Ref>, g: &mut Rng) {
    let n = hs.borrow().len();
    if n == 0 {
        return;
    }
    let i = g.below(n as u64) as usize;
    let t = hs.borrow()[i].clone();
    let at = Lie(g.below(60) as i64 - 2);
    // half of the time, panics go on into the operation that is being done
    let caught = lies().is_none_or(|l| l.panic == 0) || g.chance(1, 2);
    let r = match g.below(9) {
        0..=2 => {
            let Ok(t) = t.try_borrow() else { return };
            sut(|| {
                let e = t.get(at);
                e.slice().0.check("slice of a re-entrant lookup");
                let r = P::make_ref(&e);
                if refs.borrow().len() < 16 {
                    let _f = SutFlag::set(false);
                    refs.borrow_mut().extend(r.map(Rc::new));
                }
            })
        }
        3 | 4 => {
            let Ok(t) = t.try_borrow() else { return };
            let whole = g.chance(1, 2);
            let back = g.chance(1, 2);
            sut(|| {
                let mut it = if whole { t.iter(..) } else { t.iter(at..) };
                for _ in 0..4 {
                    let e = if back { it.next_back() } else { it.next() };
                    if let Some(e) = e {
                        e.slice().0.check("slice of a re-entrant iteration");
                    }
                }
            })
        }
        5 => {
            let Ok(t) = t.try_borrow() else { return };
            sut(|| drop((t.cursor_to::<Cur>(at), t.size(), t.number_of_slices())))
        }
        6 => {
            let Ok(t) = t.try_borrow() else { return };
            let r = sut(|| P::dup(&t));
            if n < 5 {
                let _f = SutFlag::set(false);
                if let Ok(Some(t)) = r {
                    hs.borrow_mut().push(Rc::new(RefCell::new(t)));
                }
                return;
            }
            r.map(drop)
        }
        7 => {
            let Ok(mut t) = t.try_borrow_mut() else { return };
            let s = S::new(g.below(1000) as u32 + 5000);
            let z = Lie(1 + g.below(4) as i64);
            sut(|| drop(P::insert_ref(&mut t, None, at, s, z)))
        }
        _ => {
            let x = hs.borrow_mut().swap_remove(i);
            sut(|| drop((x, t)))
        }
    };
    if r.is_err() && !caught {
        inject(Cb::Cmp);
    }
}

fn history<const MJ: bool, P: Kinds<MJ, M>, const M: usize>(op: &Op) {
    let mut g = Rng::new(op.b as u64 | (op.d as u64) << 32);
    let rate = |g: &mut Rng| if g.chance(1, 3) { 0 } else { *g.pick(&[2, 5, 15, 40, 150]) };
    let l = Lies {
        cmp: rate(&mut g),
        sum: rate(&mut g),
        join: if g.chance(1, 3) { 0 } else { g.range(1, 6) },
        panic: if g.chance(2, 3) { 0 } else { g.range(40, 400) },
        reent: if g.chance(2, 3) { 0 } else { g.range(4, 60) },
        fixed: g.chance(1, 4).then(|| g.u64()),
        told: [0; 4],
        g: Rng::new(g.u64()),
    };
    let had = ctx().live;
    let hs: Trees<MJ, P, M> = Rc::new(RefCell::new(vec![Rc::new(RefCell::new(RleTree::new_empty()))]));
    let refs: Refs<P::Ref> = Rc::new(RefCell::new(vec![]));
    // borrows are kept next to the reference they come from
    let mut borrows: Vec<(Borrow<'static, S<MJ>>, Rc<P::Ref>)> = vec![];
    let mut pool: Vec<Cur> = vec![];
    let honest = g.below(30);
    let mut lies = Some(l);
    let (mut panicked, mut went) = (0, 0);
    {
        let (refs, hs) = (refs.clone(), hs.clone());
        *reent() = Some(Box::new(move |g| {
            if g.chance(1, 2) {
                let _f = SutFlag::set(true);
                through::<MJ, P, M>(&refs, g, false)
            } else {
                on_tree::<MJ, P, M>(&hs, &refs, g)
            }
        }));
    }
    macro_rules! go {
        ($what:expr, $f:expr) => {{
            let r = sut($f);
            if ctx().verbose {
                let how = match &r {
                    Ok(_) => "returns",
                    Err(Pan::Inj) => "panics in user code",
                    Err(Pan::Msg(_)) => "panics",
                };
                eprintln!("   {} {how}, {} slices live", $what, ctx().live - had);
            }
            match r {
                Ok(x) => {
                    went += 1;
                    Some(x)
                }
                Err(Pan::Inj) | Err(Pan::Msg(_)) => {
                    panicked += 1;
                    None
                }
            }
        }};
    }
    let mut size = 0i64;
    let mut tag = 0;
    for step in 0..op.c % 120 {
        if step as u64 == honest {
            unsafe { LIES = lies.take() };
        }
        if hs.borrow().is_empty() {
            hs.borrow_mut().push(Rc::new(RefCell::new(RleTree::new_empty())));
            size = 0;
        }
        let count = hs.borrow().len();
        let i = g.below(count as u64) as usize;
        let (several, many) = (count > 1, count < 4);
        // as user code does that shares a tree between an operation and what the operation calls
        let rc = hs.borrow()[i].clone();
        let at = Lie(match g.below(8) {
            0 => size,
            1 => 0,
            2 => g.below(300) as i64 - 20,
            _ => g.below(size.max(1) as u64) as i64,
        });
        let c = hint(g.u32(), &pool, M);
        match g.below(20) {
            0..=9 => {
                let n = 1 + g.below(6) as i64;
                tag += 1;
                let s = S::new(tag);
                let mut t = rc.borrow_mut();
                let t = &mut *t;
                if let Some((c, r)) = go!("insertion", || P::insert_ref(t, c, at, s, Lie(n))) {
                    size += n;
                    pool.truncate(10);
                    pool.extend(c);
                    if refs.borrow().len() < 16 {
                        refs.borrow_mut().extend(r.map(Rc::new));
                    }
                }
            }
            10 | 11 => {
                let t = rc.borrow();
                let e = go!("get", || match c {
                    Some(c) => t.get_with_cursor(c, at),
                    None => t.get(at),
                });
                if let Some(e) = e {
                    if let Some(s) = go!("slice", || e.slice()) {
                        s.0.check("slice of an entry");
                    }
                    go!("entry", || drop((e.range(), e.size())));
                    if refs.borrow().len() < 16 {
                        let r = go!("make_ref", || P::make_ref(&e)).flatten();
                        refs.borrow_mut().extend(r.map(Rc::new));
                    }
                }
            }
            12 | 13 => {
                let t = rc.borrow();
                let (x, y) = (at, Lie(at.0 + g.below(40) as i64));
                let which = g.below(4);
                let z = LieRange([x, y, Lie(g.below(60) as i64 - 5), Lie(y.0 - 7)]);
                if let Some(mut it) = go!("iter", || match which {
                    0 | 1 => t.iter(..),
                    2 => t.iter(x..y),
                    _ => t.iter(&z),
                }) {
                    for _ in 0..400 {
                        let front = g.chance(1, 2);
                        match go!("step", || if front { it.next() } else { it.next_back() }) {
                            Some(Some(e)) => {
                                if let Some(s) = go!("slice", || e.slice()) {
                                    s.0.check("slice of an iteration");
                                }
                            }
                            _ => break,
                        }
                    }
                }
            }
            14 => {
                let t = rc.borrow();
                if let Some(c) = go!("cursor_to", || t.cursor_to::<Cur>(at)) {
                    pool.truncate(10);
                    pool.push(c);
                }
                go!("size", || drop((t.size(), t.number_of_slices())));
            }
            15 if many => {
                let t = rc.borrow();
                let c = go!("clone", || P::dup(&t)).flatten();
                hs.borrow_mut().extend(c.map(|t| Rc::new(RefCell::new(t))));
            }
            16 if several || g.chance(1, 4) => {
                let t = hs.borrow_mut().swap_remove(i);
                go!("drop", || drop((rc, t)));
            }
            17 if !refs.borrow().is_empty() && borrows.len() < 3 => {
                let n = refs.borrow().len() as u64;
                let r = refs.borrow()[g.below(n) as usize].clone();
                let rr = unsafe { &*Rc::as_ptr(&r) };
                if let Some(b) = go!("borrow", || P::borrow(rr)).flatten() {
                    // SAFETY: `r` is kept next to it
                    let b: Borrow<'static, S<MJ>> = unsafe { std::mem::transmute(b) };
                    borrows.push((b, r));
                }
            }
            18 if !borrows.is_empty() && borrows.len() < 3 && g.chance(1, 2) => {
                let (b, r) = &borrows[0];
                if let Some(c) = go!("cloning a borrow", || b.clone()) {
                    let fails = g.chance(1, 4);
                    let c = go!("mapping a borrow", || Borrow::map(c, |s| {
                        let _f = SutFlag::set(false);
                        s.0.check("mapped slice");
                        enter(Cb::Map);
                        if fails {
                            inject(Cb::Map);
                        }
                        s
                    }));
                    let r = r.clone();
                    borrows.extend(c.map(|c| (c, r)));
                }
            }
            18 if !borrows.is_empty() => {
                let n = borrows.len() as u64;
                let (b, r) = borrows.swap_remove(g.below(n) as usize);
                b.0.check("borrowed slice");
                go!("dropping a borrow", || drop(b));
                go!("dropping a reference", || drop(r));
            }
            _ => {
                let r = &refs;
                go!("reference", || through::<MJ, P, M>(r, &mut g, true));
            }
        }
        for (b, _) in &borrows {
            b.0.check("borrowed slice");
        }
    }
    // everything goes, in any order, lies included
    loop {
        let n = hs.borrow().len() as u64;
        if n == 0 {
            break;
        }
        let t = hs.borrow_mut().swap_remove(g.below(n) as usize);
        go!("drop", || drop(t));
    }
    while let Some((b, r)) = borrows.pop() {
        b.0.check("borrowed slice");
        go!("dropping a borrow", || drop(b));
        go!("dropping a reference", || drop(r));
    }
    let told = unsafe { LIES.take() }.map_or([0; 4], |l| l.told);
    *reent() = None;
    // user code may have made more of them while the rest was destroyed
    loop {
        let Some(t) = hs.borrow_mut().pop() else { break };
        go!("drop", || drop(t));
    }
    loop {
        let r = refs.borrow_mut().pop();
        let Some(r) = r else { break };
        go!("dropping a reference", || drop(r));
    }
    let st = stats();
    for (k, n) in ["wrong comparison", "wrong sum or difference", "panic in a misbehaving type", "re-entrant use in a misbehaving type"]
        .iter()
        .zip(told)
    {
        st.add(&format!("fault: {k}"), n);
    }
    st.add("misbehaving types: calls that panicked", panicked);
    st.add("misbehaving types: calls that returned", went);
    if ctx().live > had {
        violation(format!("{} slices were never destroyed although every handle and reference is gone", ctx().live - had));
    }
}
