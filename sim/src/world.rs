//! The engine: handles, references and borrows of one instantiation, and the operations on them, each compared
//! with the reference model.

use crate::alloc::{self, SutFlag};
use crate::ctx::{begin_op, callback, ctx, per, violation, Armed, Cb, Injected, Piece, CB_NAMES};
use crate::feat::{Feat, Kind, SRef, Tree};
use crate::geom::*;
use crate::model::{Model, Run};
use crate::rng::Rng;
use crate::sched;
use crate::spec::{Op, K};
use crate::stats::stats;
use crate::types::{then, Cur, Ix, Val, Pos, ORIGIN};
use sherman::param::NoFeatures;
use sherman::range::{EndBound, RangeBounds, StartBound};
use sherman::{Borrow, BoundedCursor, Cursor, RleTree};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ calling the crate

#[derive(Debug)]
pub enum Pan {
    Inj,
    Msg(String),
}

/// Runs code of the crate under test
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, Pan> {
    let r = crate::ctx::catch(f);
    if let Some(e) = alloc::take_error() {
        violation(e);
    }
    r.map_err(|p| {
        if p.is::<Injected>() {
            Pan::Inj
        } else {
            let m = std::mem::take(&mut per().last_panic);
            if m.starts_with("harness:") {
                crate::driver::die_broken(&m);
            }
            if m.starts_with("debug assertion failed:") {
                // an assumption that release builds compile to undefined behaviour
                violation(format!("internal safety assertion violated: {m}"));
            }
            Pan::Msg(m)
        }
    })
}

/// Runs code that must not panic
pub fn ok<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match sut(f) {
        Ok(r) => r,
        Err(Pan::Msg(m)) => violation(format!("{what} panicked: {m}")),
        Err(Pan::Inj) => violation(format!("{what}: harness fault fired outside its operation")),
    }
}

// ------------------------------------------------------------------ ranges

/// Any range, bounds computed by the standard range types' own implementations
#[derive(Clone)]
pub enum AnyRange<I> {
    Full,
    R(std::ops::Range<I>),
    Inc(std::ops::RangeInclusive<I>),
    From(std::ops::RangeFrom<I>),
    To(std::ops::RangeTo<I>),
    ToInc(std::ops::RangeToInclusive<I>),
    Pair(StartBound<I>, EndBound<I>),
    /// the range of references of a kind
    Refs(u32, I, I),
}

impl<I: Ix> AnyRange<I> {
    fn lo_of<'a>(b: StartBound<&I>, x: &'a I, y: &'a I) -> StartBound<&'a I> {
        match b {
            StartBound::Included(v) => StartBound::Included(if std::ptr::eq(v, x) { x } else { y }),
            StartBound::Unbounded => StartBound::Unbounded,
        }
    }

    fn hi_of<'a>(b: EndBound<&I>, x: &'a I, y: &'a I) -> EndBound<&'a I> {
        let pick = |v: &I| if std::ptr::eq(v, x) { x } else { y };
        match b {
            EndBound::Included(v) => EndBound::Included(pick(v)),
            EndBound::Excluded(v) => EndBound::Excluded(pick(v)),
            EndBound::Unbounded => EndBound::Unbounded,
        }
    }
}

macro_rules! of_refs {
    ($bound:ident, $of:ident, $kind:expr, $x:expr, $y:expr) => {{
        let (x, y) = ($x, $y);
        match $kind {
            0 => Self::$of(RangeBounds::<I>::$bound(&(..)), x, y),
            1 => Self::$of(RangeBounds::<I>::$bound(&(x..y)), x, y),
            2 => Self::$of(RangeBounds::<I>::$bound(&(x..=y)), x, y),
            3 => Self::$of(RangeBounds::<I>::$bound(&(x..)), x, y),
            4 => Self::$of(RangeBounds::<I>::$bound(&(..y)), x, y),
            5 => Self::$of(RangeBounds::<I>::$bound(&(..=y)), x, y),
            6 => Self::$of(RangeBounds::<I>::$bound(&(StartBound::Included(x), EndBound::Excluded(y))), x, y),
            _ => Self::$of(RangeBounds::<I>::$bound(&&(StartBound::<&I>::Unbounded, EndBound::Included(y))), x, y),
        }
    }};
}

impl<I> std::fmt::Debug for AnyRange<I> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("range")
    }
}

impl<I: Ix> RangeBounds<I> for AnyRange<I> {
    fn start_bound(&self) -> StartBound<&I> {
        crate::ctx::callback(Cb::Range);
        match self {
            AnyRange::Full => RangeBounds::<I>::start_bound(&(..)),
            AnyRange::R(r) => RangeBounds::start_bound(r),
            AnyRange::Inc(r) => RangeBounds::<I>::start_bound(r),
            AnyRange::From(r) => RangeBounds::<I>::start_bound(r),
            AnyRange::To(r) => RangeBounds::<I>::start_bound(r),
            AnyRange::ToInc(r) => RangeBounds::<I>::start_bound(r),
            AnyRange::Pair(StartBound::Included(x), _) => StartBound::Included(x),
            AnyRange::Pair(StartBound::Unbounded, _) => StartBound::Unbounded,
            AnyRange::Refs(k, x, y) => of_refs!(start_bound, lo_of, *k, x, y),
        }
    }
    fn end_bound(&self) -> EndBound<&I> {
        match self {
            AnyRange::Full => RangeBounds::<I>::end_bound(&(..)),
            AnyRange::R(r) => RangeBounds::end_bound(r),
            AnyRange::Inc(r) => RangeBounds::<I>::end_bound(r),
            AnyRange::From(r) => RangeBounds::<I>::end_bound(r),
            AnyRange::To(r) => RangeBounds::<I>::end_bound(r),
            AnyRange::ToInc(r) => RangeBounds::<I>::end_bound(r),
            AnyRange::Pair(_, EndBound::Included(x)) => EndBound::Included(x),
            AnyRange::Pair(_, EndBound::Excluded(x)) => EndBound::Excluded(x),
            AnyRange::Pair(_, EndBound::Unbounded) => EndBound::Unbounded,
            AnyRange::Refs(k, x, y) => of_refs!(end_bound, hi_of, *k, x, y),
        }
    }
}

/// A range as the model sees it: kind, start, end
#[derive(Clone, Debug)]
pub struct MRange {
    pub kind: u32,
    pub x: Pos,
    pub y: Pos,
    /// made of references to its ends
    pub refs: bool,
}

impl MRange {
    pub fn real<I: Ix>(&self) -> AnyRange<I> {
        let (x, y) = (I::dec(self.x), I::dec(self.y));
        if self.refs {
            return AnyRange::Refs(self.kind, x, y);
        }
        match self.kind {
            0 => AnyRange::Full,
            1 => AnyRange::R(x..y),
            2 => AnyRange::Inc(x..=y),
            3 => AnyRange::From(x..),
            4 => AnyRange::To(..y),
            5 => AnyRange::ToInc(..=y),
            6 => AnyRange::Pair(StartBound::Included(x), EndBound::Excluded(y)),
            _ => AnyRange::Pair(StartBound::Unbounded, EndBound::Included(y)),
        }
    }

    /// Start and end (position, included), where bounded
    fn bounds(&self) -> (Option<Pos>, Option<(Pos, bool)>) {
        let lo = match self.kind {
            0 | 4 | 5 | 7 => None,
            _ => Some(self.x),
        };
        let hi = match self.kind {
            0 | 3 => None,
            1 | 4 | 6 => Some((self.y, false)),
            _ => Some((self.y, true)),
        };
        (lo, hi)
    }

    /// What the public predicates say about the range
    pub fn predicates<I: Ix>(&self, o: &MRange, at: Pos) {
        let (lo, hi) = self.bounds();
        let has = |r: &MRange, p: Pos| {
            let (lo, hi) = r.bounds();
            lo.map_or(true, |x| x <= p) && hi.map_or(true, |(y, inc)| p < y || (inc && p == y))
        };
        let empty = |r: &MRange| match r.bounds() {
            (Some(x), Some((y, inc))) => x > y || (!inc && x == y),
            _ => false,
        };
        let (r, s) = (self.real::<I>(), o.real::<I>());
        let got = ok("range predicates", || {
            (r.contains(&I::dec(at)), r.starts_after_end(), r.is_empty_naive(), r.overlaps_naive(&s), s.overlaps_naive(&r))
        });
        let (olo, ohi) = o.bounds();
        // the later start and the earlier end decide; sharing an unbounded side is documented as unreliable
        let shared = (lo.is_none() && olo.is_none()) || (hi.is_none() && ohi.is_none());
        let start = lo.max(olo);
        let overlap = !empty(self) && !empty(o) && start.map_or(true, |x| has(self, x) && has(o, x));
        let want = (has(self, at), empty(self), empty(self), overlap, overlap);
        let same = if shared { (got.0, got.1, got.2) == (want.0, want.1, want.2) } else { got == want };
        if !same {
            violation(format!(
                "contains({at:?}), starts_after_end, is_empty_naive and overlaps_naive with {o:?} (both ways) of {self:?} are {got:?}, expected {want:?}"
            ));
        }
    }

    /// Runs overlapping the range, or `None` if the documentation says it is rejected
    pub fn expect(&self, m: &Model) -> Option<Vec<usize>> {
        let size = m.size();
        let (lo, hi) = self.bounds();
        if let Some(x) = lo {
            if x < ORIGIN || x >= size {
                return None;
            }
            match hi {
                Some((y, false)) if x >= y => return None,
                Some((y, true)) if x > y => return None,
                _ => {}
            }
        }
        match hi {
            Some((y, false)) if y > size || y < ORIGIN => return None,
            Some((y, true)) if y >= size || y < ORIGIN => return None,
            _ => {}
        }
        let mut p = ORIGIN;
        let mut v = vec![];
        for (i, r) in m.runs.iter().enumerate() {
            let e = then(p, r.len);
            let after_lo = lo.map_or(true, |x| e > x);
            let before_hi = match hi {
                None => true,
                Some((y, false)) => p < y,
                Some((y, true)) => p <= y,
            };
            if after_lo && before_hi {
                v.push(i);
            }
            p = e;
        }
        Some(v)
    }
}

// ------------------------------------------------------------------ state

pub struct H<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize> {
    pub t: Tree<I, MJ, P, M>,
    pub m: Model,
    /// user code panicked during a mutation: contents are unspecified from there on
    pub poisoned: bool,
    pub uid: u64,
    pub last: Pos,
    pub twin: Option<RleTree<I, Val<MJ>, NoFeatures, M>>,
}

pub struct RefEnt<R> {
    r: Rc<R>,
    uid: u64,
    key: Option<u64>,
}

/// What is known about a tree with references
pub struct TS {
    alive: bool,
    borrows: usize,
    poisoned: bool,
    frozen: Option<Model>,
}

pub struct Shared<R> {
    refs: Vec<RefEnt<R>>,
    trees: BTreeMap<u64, TS>,
}

/// A borrow of a slice, or one of part of a slice (`Borrow::map`)
enum Part<const MJ: bool> {
    All(Borrow<'static, Val<MJ>>),
    Len(Borrow<'static, Pos>),
}

impl<const MJ: bool> Part<MJ> {
    fn dup(&self) -> Self {
        match self {
            Part::All(b) => Part::All(b.clone()),
            Part::Len(b) => Part::Len(b.clone()),
        }
    }

    /// Narrows the borrow to a part of what it borrows; `f` is called by the function that does so
    fn map(self, f: impl FnOnce()) -> Self {
        match self {
            Part::All(b) => Part::Len(Borrow::map(b, |v| {
                v.check("argument of the function given to map");
                f();
                &v.len
            })),
            Part::Len(b) => Part::Len(Borrow::map(b, |x| {
                f();
                x
            })),
        }
    }
}

struct BorrowEnt<R, const MJ: bool> {
    b: Option<Part<MJ>>,
    r: Option<Rc<R>>,
    uid: u64,
    id: u32,
    piece: Piece,
}

/// What one step of an iterator showed
#[derive(Clone, Debug, PartialEq)]
pub struct Seen {
    start: Pos,
    end: Pos,
    size: Pos,
    id: u32,
    piece: Piece,
}

pub type Mailbox<T> = Arc<Vec<Mutex<Option<AssertSend<T>>>>>;

/// Handles are moved between simulated threads; which types may is property C19's business, not this engine's
pub struct AssertSend<T>(pub T);
unsafe impl<T> Send for AssertSend<T> {}
unsafe impl<T> Sync for AssertSend<T> {}

pub const SLOTS: usize = 6;

pub struct World<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize> {
    pub hs: Vec<Option<H<I, MJ, P, M>>>,
    shared: Rc<RefCell<Shared<P::Ref>>>,
    borrows: Vec<BorrowEnt<P::Ref, MJ>>,
    pool: Vec<Cur>,
    ns: u64,
    next_uid: u64,
    next_key: u64,
    next_tag: u32,
    pub pol: u8,
    pub every: u32,
    pub twin: bool,
    pub cost: bool,
    /// slices of a handle that is out of its slot, being iterated
    pub held: Vec<u32>,
    pub ops: u32,
    pub mail: Option<Mailbox<H<I, MJ, P, M>>>,
    pub ro: Option<Arc<AssertSend<(Tree<I, MJ, P, M>, Model)>>>,
}

fn overlap_err(h: &str, got: &Seen, want: &Seen) -> ! {
    violation(format!("{h}: got {got:?}, expected {want:?}"))
}

impl<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize> World<I, MJ, P, M> {
    pub fn new(ns: u64, pol: u8, every: u32, twin: bool, cost: bool) -> Self {
        World {
            hs: (0..SLOTS).map(|_| None).collect(),
            shared: Rc::new(RefCell::new(Shared { refs: vec![], trees: BTreeMap::new() })),
            borrows: vec![],
            pool: vec![],
            ns,
            next_uid: ns << 32,
            next_key: ns << 32,
            next_tag: (ns as u32) << 20 | 16,
            pol,
            every,
            twin,
            cost,
            held: vec![],
            ops: 0,
            mail: None,
            ro: None,
        }
    }

    fn uid(&mut self) -> u64 {
        self.next_uid += 1;
        self.next_uid
    }

    fn tag(&mut self) -> u32 {
        self.next_tag += 1;
        self.next_tag
    }

    fn live(&self) -> Vec<usize> {
        (0..SLOTS).filter(|i| self.hs[*i].is_some()).collect()
    }

    fn pick(&self, h: u8) -> Option<usize> {
        let l = self.live();
        if l.is_empty() {
            None
        } else {
            Some(l[h as usize % l.len()])
        }
    }

    fn h(&self, i: usize) -> &H<I, MJ, P, M> {
        self.hs[i].as_ref().unwrap()
    }

    fn hm(&mut self, i: usize) -> &mut H<I, MJ, P, M> {
        self.hs[i].as_mut().unwrap()
    }

    pub fn put(&mut self, h: H<I, MJ, P, M>) -> bool {
        if let Some(i) = (0..SLOTS).find(|i| self.hs[*i].is_none()) {
            self.hs[i] = Some(h);
            true
        } else {
            self.drop_handle(h);
            false
        }
    }

    fn borrows_of(&self, uid: u64) -> usize {
        self.borrows.iter().filter(|b| b.uid == uid).count()
    }

    // -------------------------------------------------------------- reading

    fn seen(e: &sherman::SliceEntry<'_, I, Val<MJ>, P, M>) -> Seen {
        let r = e.range();
        let s = e.slice();
        let sz = e.size();
        let _f = SutFlag::set(false);
        s.check("read");
        Seen { start: r.start.enc(), end: r.end.enc(), size: sz.enc(), id: s.id, piece: (s.tag, s.off, s.len) }
    }

    fn want(m: &Model, i: usize, start: Pos) -> Seen {
        let r = &m.runs[i];
        Seen { start, end: then(start, r.len), size: r.len, id: 0, piece: r.piece() }
    }

    fn same(mut got: Seen, want: &Seen, what: &str) {
        got.id = 0;
        if got != *want {
            overlap_err(what, &got, want);
        }
    }

    /// Complete comparison of a handle with its model; returns the identities of the stored slices
    pub fn check_full(what: &str, t: &Tree<I, MJ, P, M>, m: &Model, poisoned: bool) -> Vec<u32> {
        let n = m.runs.len();
        if poisoned {
            let mut ids = vec![];
            let r = sut(|| {
                for (k, e) in t.iter(..).enumerate() {
                    let s = Self::seen(&e);
                    let _f = SutFlag::set(false);
                    ids.push(s.id);
                    if k > n * 4 + 10_000 {
                        violation(format!("{what}: iteration over a tree whose insertion panicked does not end"));
                    }
                }
            });
            if r.is_err() {
                ids.push(u32::MAX);
            }
            let _ = sut(|| (t.size().enc(), t.number_of_slices()));
            return ids;
        }
        let (size, cnt) = ok(what, || (t.size().enc(), t.number_of_slices()));
        if size != m.size() {
            violation(format!("{what}: size() is {:?}, the runs add up to {:?}", size, m.size()));
        }
        if cnt != n {
            violation(format!("{what}: number_of_slices() is {cnt}, there are {n}"));
        }
        ok(&format!("{what}: balance/position validation"), || t.validate());
        let mut got = Vec::with_capacity(n + 2);
        ok(&format!("{what}: iteration"), || {
            for e in t.iter(..) {
                let s = Self::seen(&e);
                let _f = SutFlag::set(false);
                if got.len() > n {
                    violation(format!("{what}: iteration yields more slices than the {n} there are"));
                }
                got.push(s);
            }
        });
        let mut p = ORIGIN;
        let mut ids = Vec::with_capacity(n);
        for i in 0..n {
            let w = Self::want(m, i, p);
            if i >= got.len() {
                violation(format!("{what}: iteration ended after {i} of {n} slices"));
            }
            ids.push(got[i].id);
            Self::same(got[i].clone(), &w, &format!("{what}: slice {i} of {n}"));
            p = w.end;
        }
        ids
    }

    fn check_get(what: &str, t: &Tree<I, MJ, P, M>, m: &Model, pos: Pos, c: Option<Cur>) {
        let (i, start, _) = m.find(pos);
        let w = Self::want(m, i, start);
        let g = ok(&format!("{what}: lookup of {pos:?}"), || {
            let e = match c {
                None => t.get(I::dec(pos)),
                Some(c) => t.get_with_cursor(c, I::dec(pos)),
            };
            Self::seen(&e)
        });
        Self::same(g, &w, &format!("{what}: lookup of {pos:?}"));
    }

    /// Cheap comparison of every handle after every operation
    fn light(&mut self) {
        for (i, h) in self.hs.iter().enumerate() {
            if let Some(h) = h {
                if h.poisoned {
                    continue;
                }
                let (s, n) = ok("size", || (h.t.size().enc(), h.t.number_of_slices()));
                if s != h.m.size() || n != h.m.runs.len() {
                    violation(format!(
                        "handle {i}: size {s:?} with {n} slices, expected {:?} with {}",
                        h.m.size(),
                        h.m.runs.len()
                    ));
                }
            }
        }
    }

    pub fn check_all(&mut self) {
        for (i, h) in self.hs.iter().enumerate() {
            if let Some(h) = h {
                let ids = Self::check_full(&format!("handle {i}"), &h.t, &h.m, h.poisoned);
                ctx().log(ids.len() as u64);
                if P::KIND == Kind::Plain {
                    // nothing is shared
                    let mut all = HashSet::new();
                    for x in ids {
                        if x != u32::MAX && !all.insert(x) {
                            violation(format!("handle {i}: slice #{x} is stored twice"));
                        }
                    }
                }
                if !h.poisoned && !h.m.runs.is_empty() {
                    let mut g = Rng::new(self.ops as u64 ^ (i as u64) << 32);
                    for _ in 0..4 {
                        let pos = read_pos(I::DIM, &h.m, g.u32(), g.u32());
                        Self::check_get(&format!("handle {i}"), &h.t, &h.m, pos, None);
                    }
                }
            }
        }
        if P::KIND == Kind::Refs {
            self.check_refs();
        }
        if self.cost {
            self.check_space();
        }
    }

    /// Storage linear in the number of slices (only when nothing is in flight)
    fn check_space(&self) {
        if self.hs.iter().flatten().any(|h| h.poisoned || h.twin.is_some()) || self.ns != 0 || !self.borrows.is_empty() {
            return;
        }
        if self.shared.borrow().trees.values().any(|t| !t.alive) {
            return;
        }
        let mut most = 0;
        for h in self.hs.iter().flatten() {
            let n = h.m.runs.len();
            most += if n == 0 { 0 } else { 1 + (n - 1) / M + if P::KIND == Kind::Refs { 2 } else { 0 } };
        }
        let have = alloc::live_blocks();
        stats().max("live_blocks", have as u64);
        if have > most {
            violation(format!("{have} memory blocks are held, at most {most} can be needed for the slices there are"));
        }
    }

    // -------------------------------------------------------------- faults

    fn arm(&self, op: &Op) {
        for f in &op.f {
            ctx().armed.push(Armed { mask: f.m, nth: f.n, thread: sched::tid(), after: f.after });
        }
    }

    fn disarm(&self) {
        let me = sched::tid();
        ctx().armed.retain(|a| a.thread != me);
        ctx().reent = None;
    }

    /// Runs the one call of an operation that faults and re-entrant user code may hit
    fn call<R>(&mut self, op: &Op, uid: u64, post: Option<&Model>, destroy: bool, f: impl FnOnce() -> R) -> Result<R, Pan> {
        if op.re != 0 && P::KIND == Kind::Refs {
            let pre = self.hs.iter().flatten().find(|h| h.uid == uid).map(|h| h.m.clone());
            self.hook(op.re, uid, pre, post.cloned(), destroy);
        }
        begin_op();
        self.arm(op);
        let r = sut(f);
        self.disarm();
        r
    }

    // -------------------------------------------------------------- insertion

    fn value(&mut self, m: &Model, pos: Pos, c: u32) -> (u32, Pos, Pos) {
        let len = gen_len(I::DIM, c >> 3);
        let (i, _, within) = m.find(pos);
        let left = if within != ORIGIN { Some(Run { len: within, ..m.runs[i].clone() }) } else if i > 0 { Some(m.runs[i - 1].clone()) } else { None };
        let right = if within != ORIGIN {
            let r = &m.runs[i];
            Some(Run { off: if MJ && self.pol == 1 { ORIGIN } else { then(r.off, within) }, ..r.clone() })
        } else {
            m.runs.get(i).cloned()
        };
        let (tag, off) = match (c & 7, left, right) {
            (2, Some(l), _) => (l.tag, then(l.off, l.len)),
            (3, _, Some(r)) => (r.tag, crate::types::without_suffix(r.off, len)),
            (4, _, _) | (5, _, _) => (1 + (c >> 5) % 3, ORIGIN),
            (6, Some(l), _) => (l.tag, l.off),
            _ => (self.tag(), ORIGIN),
        };
        if m.would_double(pos, tag, off, len) {
            return (self.tag(), ORIGIN, len);
        }
        (tag, off, len)
    }

    /// Slices on the path an insertion may copy: every slice in a node on the way to the neighbouring slices
    fn path_ids(h: &H<I, MJ, P, M>, pos: Pos) -> HashSet<u32> {
        let (i, _, _) = h.m.find(pos);
        let n = h.m.runs.len();
        let mut paths: Vec<(Vec<u8>, u32)> = vec![];
        let mut p = ORIGIN;
        for r in &h.m.runs {
            let (c, id) = ok("cursor_to", || (h.t.cursor_to::<Cur>(I::dec(p)), h.t.get(I::dec(p)).slice().id));
            paths.push((path_vals(&c), id));
            p = then(p, r.len);
        }
        let near: Vec<Vec<u8>> =
            (i.saturating_sub(1)..=(i + 1)).filter(|k| *k < n).map(|k| paths[k].0.clone()).collect();
        paths.iter().filter(|(p, _)| near.iter().any(|q| q.starts_with(p))).map(|(_, id)| *id).collect()
    }

    fn insert(&mut self, hi: usize, pos: Pos, val: (u32, Pos, Pos), c: Option<Cur>, want_ref: bool, op: &Op) {
        let len = val.2;
        let mut m2 = self.h(hi).m.clone();
        let ins = m2.insert(pos, val.0, val.1, len, &mut self.next_key);
        let n = self.h(hi).m.runs.len();
        let uid = self.h(hi).uid;
        let poisoned = self.h(hi).poisoned;
        let blocked = self.borrows_of(uid) > 0;
        let exact = self.cost && n < 2000 && P::KIND == Kind::Cow && !poisoned && self.ns == 0;
        let (mut others, mut on_path) = (HashSet::new(), HashSet::new());
        if exact {
            for (k, h) in self.hs.iter().enumerate() {
                if let (true, Some(h)) = (k != hi, h) {
                    others.extend(Self::check_full("other handle", &h.t, &h.m, h.poisoned));
                }
            }
            others.extend(&self.held);
            on_path = Self::path_ids(self.h(hi), pos);
        }
        let had = ctx().live;
        let mut h = self.hs[hi].take().unwrap();
        self.hs[hi] = None;
        let hint = c.clone();
        let s = Val::<MJ>::new(val.0, val.1, len);
        // the handle is out of its slot during the call, so look its model up for the hook first
        if op.re != 0 && P::KIND == Kind::Refs {
            self.hook(op.re, uid, Some(h.m.clone()), Some(m2.clone()), false);
        }
        begin_op();
        per().tolerant = poisoned;
        self.arm(op);
        let r = {
            let t = &mut h.t;
            sut(|| {
                if want_ref && P::KIND == Kind::Refs {
                    P::insert_ref(t, c, I::dec(pos), s, I::dec(len))
                } else {
                    match c {
                        None => {
                            t.insert(I::dec(pos), s, I::dec(len));
                            (None, None)
                        }
                        Some(c) => (Some(t.insert_with_cursor(c, I::dec(pos), s, I::dec(len))), None),
                    }
                }
            })
        };
        self.disarm();
        if let (Some(tw), Ok(_)) = (&mut h.twin, &r) {
            let s = Val::<MJ>::new(val.0, val.1, len);
            // A hint may decide between two equally good places for a slice, so the twin gets the same one.
            ok("insertion into the plain twin", || match hint {
                None => tw.insert(I::dec(pos), s, I::dec(len)),
                Some(c) => drop(tw.insert_with_cursor(c, I::dec(pos), s, I::dec(len))),
            });
        }
        self.hs[hi] = Some(h);
        let p = per();
        match r {
            Ok((cur, rf)) => {
                if blocked && !poisoned {
                    violation(format!("handle {hi}: insertion went through while a slice of the tree is borrowed"));
                }
                if poisoned {
                    // whatever it did, the contents stay unspecified
                    if let Some(r) = rf {
                        self.shared.borrow_mut().refs.push(RefEnt { r: Rc::new(r), uid, key: None });
                    }
                    return;
                }
                let h = self.hs[hi].as_mut().unwrap();
                h.m = m2;
                h.last = then(h.m.start_of(ins.at), h.m.runs[ins.at].len);
                if self.twin {
                    // counts below include the twin's
                } else {
                    if p.splits != ins.splits {
                        violation(format!("insertion at {pos:?} split {} slices, expected {}", p.splits, ins.splits));
                    }
                    for j in &p.joins {
                        if !ins.pairs.iter().flatten().any(|x| x == j) {
                            violation(format!("insertion at {pos:?} tried to join {j:?}, which are not neighbours"));
                        }
                        // Equal slices may meet on both sides of the inserted one.
                        let most = ins.pairs.iter().flatten().filter(|x| *x == j).count();
                        if p.joins.iter().filter(|x| *x == j).count() > most {
                            violation(format!("insertion at {pos:?} tried to join {j:?} more than {most} times"));
                        }
                    }
                    self.check_clones(n, pos, exact, &others, &on_path);
                    let (ls, hs) = (ctx().live, had + 1 + ins.splits as usize + p.clones.len());
                    let joined = p.joins.iter().filter(|j| j.2).count();
                    if sched::tid() == sched::MAIN && ls + joined != hs {
                        violation(format!("insertion at {pos:?}: {ls} slices exist, expected {}", hs - joined));
                    }
                    if op.re == 0 {
                        self.check_index_ops("insertion", n, true);
                    }
                }
                self.check_steps("insertion", n + 1);
                if let Some(c) = cur {
                    self.check_cursor_of(hi, ins.at, &c, "returned by insertion");
                    self.pool_push(c);
                }
                if let Some(r) = rf {
                    self.shared.borrow_mut().refs.push(RefEnt { r: Rc::new(r), uid, key: Some(ins.key) });
                    let k = self.shared.borrow().refs.len() - 1;
                    self.check_ref(k, false);
                }
            }
            Err(Pan::Inj) => self.poison(hi),
            Err(Pan::Msg(m)) => {
                if !poisoned && !blocked {
                    violation(format!("handle {hi}: insertion of {val:?} at {pos:?} panicked: {m}"));
                }
                if !poisoned {
                    // a rejection: everything as before, the slice gone
                    if ctx().live != had {
                        violation(format!("rejected insertion: {} slices exist, expected {had}", ctx().live));
                    }
                    self.check_all();
                }
            }
        }
    }

    fn poison(&mut self, hi: usize) {
        let h = self.hm(hi);
        h.poisoned = true;
        h.twin = None;
        let uid = h.uid;
        if let Some(t) = self.shared.borrow_mut().trees.get_mut(&uid) {
            t.poisoned = true;
        }
        stats().add("poisoned handles", 1);
    }

    fn check_clones(&self, n: usize, pos: Pos, exact: bool, others: &HashSet<u32>, on_path: &HashSet<u32>) {
        let p = per();
        let c = p.clones.len();
        if P::KIND != Kind::Cow {
            if c > 0 {
                violation(format!("insertion at {pos:?} duplicated {c} slices of a tree that shares nothing"));
            }
            return;
        }
        stats().max("clones per insertion", c as u64);
        let most = 2 * M * max_depth(n, M);
        if c > most {
            violation(format!("insertion at {pos:?} duplicated {c} of {n} slices, more than one path ({most})"));
        }
        let mut seen = HashSet::new();
        for id in &p.clones {
            if !seen.insert(*id) {
                violation(format!("insertion at {pos:?} duplicated slice #{id} twice"));
            }
            if exact && !others.contains(id) && !others.contains(&u32::MAX) {
                violation(format!("insertion at {pos:?} duplicated slice #{id}, which no other handle shares"));
            }
            if exact && !on_path.contains(id) {
                violation(format!("insertion at {pos:?} duplicated slice #{id}, which is not on the path to it"));
            }
        }
    }

    fn check_index_ops(&self, what: &str, n: usize, mutation: bool) {
        if I::NAME == "usize" || !self.cost {
            return;
        }
        let p = per();
        let ops = p.n[Cb::Add as usize] + p.n[Cb::Sub as usize] + p.n[Cb::Cmp as usize];
        let d = max_depth(n.max(1), M) as u64;
        let unit = (2 * M as u64 + 2) * (d + 1);
        stats().max(if mutation { "insertion index ops x100 / (2M+2)(depth+1)" } else { "lookup index ops x100 / (2M+2)(depth+1)" }, ops * 100 / unit);
        let most = if mutation { 24 * unit } else { 6 * unit };
        if ops > most {
            violation(format!("{what} with {n} slices took {ops} index operations, more than {most}"));
        }
    }

    /// Own steps of the current thread since the operation began
    fn check_steps(&self, what: &str, n: usize) {
        if sched::tid() == sched::MAIN {
            return;
        }
        let steps = sched::my_steps() - per().steps0;
        let d = max_depth(n.max(1), M) as u64;
        let most = match what {
            "clone" => 30,
            "drop" => 60 + 12 * n as u64,
            "insertion" => 200 + 120 * (2 * M as u64 + 2) * (d + 1),
            _ => 100 + 30 * (2 * M as u64 + 2) * (d + 1) * (n as u64 + 1),
        };
        stats().max(&format!("own steps of {what} x100 / bound"), steps * 100 / most);
        if steps > most {
            violation(format!("{what} with {n} slices took {steps} of its own steps, more than {most}"));
        }
    }

    // -------------------------------------------------------------- cursors

    fn pool_push(&mut self, c: Cur) {
        if self.pool.len() >= 12 {
            let k = (c.path.len() + self.ops as usize) % 12;
            self.pool[k] = c;
        } else {
            self.pool.push(c);
        }
    }

    fn check_cursor_of(&self, hi: usize, run: usize, c: &Cur, what: &str) {
        let h = self.h(hi);
        let start = h.m.start_of(run);
        let t = ok("cursor_to", || h.t.cursor_to::<Cur>(I::dec(start)));
        if path_vals(&t) != path_vals(c) {
            violation(format!(
                "cursor {what} to the slice at {start:?} is {:?}, cursor_to gives {:?}",
                path_vals(c),
                path_vals(&t)
            ));
        }
    }

    fn bounded<const L: usize>(t: &Tree<I, MJ, P, M>, pos: Pos, full: &[u8]) {
        let got: Vec<u8> = ok("cursor_to with a bounded cursor", || {
            let c = t.cursor_to::<BoundedCursor<L>>(I::dec(pos));
            let _f = SutFlag::set(false);
            c.into_path().take(full.len() + 4 + L).map(pc_val).collect()
        });
        let want = &full[..full.len().min(L)];
        if got != want {
            violation(format!("a bounded cursor of length {L} replays {got:?} for the path {full:?}"));
        }
    }

    /// Paths of all slices, obtained in every way
    fn paths(&mut self, hi: usize) {
        let h = self.h(hi);
        if h.poisoned || h.m.runs.is_empty() {
            return;
        }
        let mut all: Vec<Vec<u8>> = vec![];
        let mut p = ORIGIN;
        for (i, r) in h.m.runs.iter().enumerate() {
            let pos = if i % 3 == 1 { gen_inside(I::DIM, r.len, i as u32).map_or(p, |x| then(p, x)) } else { p };
            begin_op();
            let c = ok("cursor_to", || h.t.cursor_to::<Cur>(I::dec(pos)));
            self.check_index_ops("cursor_to", h.m.runs.len(), false);
            let path = path_vals(&c);
            let e = ok("cursor of entry", || P::entry_cursor(&h.t.get(I::dec(pos))));
            if let Some(e) = e {
                if path_vals(&e) != path {
                    violation(format!("slice {i}: cursor_to gives {path:?}, the entry's cursor {:?}", path_vals(&e)));
                }
            }
            if let Some(tw) = &h.twin {
                let c = ok("cursor_to on the plain twin", || tw.cursor_to::<Cur>(I::dec(pos)));
                if path_vals(&c) != path {
                    violation(format!(
                        "slice {i}: cursor_to gives {path:?}, a plain tree with the same history {:?}",
                        path_vals(&c)
                    ));
                }
            }
            if i < 4 || i + 3 > h.m.runs.len() || (i as u32 ^ self.ops) % 7 == 0 {
                Self::bounded::<1>(&h.t, pos, &path);
                Self::bounded::<2>(&h.t, pos, &path);
                Self::bounded::<3>(&h.t, pos, &path);
                Self::bounded::<8>(&h.t, pos, &path);
            }
            all.push(path);
            p = then(p, r.len);
        }
        let (mut at, mut leaf) = (0, None);
        Self::walk(&all, &mut at, &mut vec![], &mut leaf);
        if at != all.len() {
            violation(format!("paths are not those of a search tree: {:?} follows {:?}", all[at], all[at - 1]));
        }
    }

    fn walk(all: &[Vec<u8>], at: &mut usize, prefix: &mut Vec<u8>, leaf: &mut Option<usize>) {
        let internal = *at < all.len() && all[*at].len() > prefix.len();
        if !internal {
            if leaf.map_or(false, |l| l != prefix.len()) {
                violation(format!("paths name leaves at depths {} and {}", leaf.unwrap(), prefix.len()));
            }
            *leaf = Some(prefix.len());
        }
        let mut keys = 0usize;
        let mut child = 0u8;
        loop {
            if internal {
                if *at >= all.len() || all[*at].len() <= prefix.len() || !all[*at].starts_with(prefix) || all[*at][prefix.len()] != child {
                    violation(format!("no path goes through child {child} of the node at {prefix:?}"));
                }
                prefix.push(child);
                Self::walk(all, at, prefix, leaf);
                prefix.pop();
                child += 1;
            }
            if *at < all.len() && all[*at] == *prefix {
                keys += 1;
                *at += 1;
            } else {
                break;
            }
        }
        let root = prefix.is_empty();
        if keys > 2 * M || keys < if root { 1 } else { M } {
            violation(format!("the paths put {keys} slices into the node at {prefix:?}"));
        }
    }

    // -------------------------------------------------------------- iteration

    fn gen_range(&self, m: &Model, a: u32, b: u32, c: u32) -> MRange {
        let mut g = Rng::new((a as u64) << 32 | b as u64);
        let size = m.size();
        let point = |g: &mut Rng| {
            if m.runs.is_empty() || g.chance(1, 8) {
                size
            } else {
                read_pos(I::DIM, m, g.u32(), g.u32())
            }
        };
        let (mut x, mut y) = (point(&mut g), point(&mut g));
        if x > y && g.chance(7, 8) {
            std::mem::swap(&mut x, &mut y);
        }
        if g.chance(1, 10) {
            x = ORIGIN;
        }
        if g.chance(1, 12) {
            y = ORIGIN;
        }
        MRange { kind: c % 8, x, y, refs: c >> 8 & 3 == 1 }
    }

    fn iter_steps<C: Cursor>(
        it: &mut sherman::Iter<'_, C, I, Val<MJ>, P, M>,
        want: &[Seen],
        (lo, hi): (&mut usize, &mut usize),
        front: bool,
        what: &str,
    ) {
        let got = ok(what, || {
            let e = if front { it.next() } else { it.next_back() };
            e.as_ref().map(|e| Self::seen(e))
        });
        match (got, *lo < *hi) {
            (None, false) => {}
            (Some(s), false) => violation(format!("{what}: yields {s:?} after every slice was yielded")),
            (None, true) => violation(format!("{what}: ends with {} of {} slices not yielded", *hi - *lo, want.len())),
            (Some(s), true) => {
                let k = if front {
                    *lo += 1;
                    *lo - 1
                } else {
                    *hi -= 1;
                    *hi
                };
                Self::same(s, &want[k], &format!("{what} ({})", if front { "front" } else { "back" }));
            }
        }
    }

    fn iter_on(&mut self, t: &Tree<I, MJ, P, M>, m: &Model, op: &Op, mut between: impl FnMut(&mut Self, u32)) {
        let r = self.gen_range(m, op.a, op.b, op.c);
        let exp = r.expect(m);
        let hint = if op.d & 16 != 0 { None } else { hint(op.d, &self.pool, M) };
        let real = r.real::<I>();
        let what = format!("iteration over {:?}", r);
        let Some(runs) = exp else {
            let e = sut(|| {
                let _ = t.iter(real);
            });
            match e {
                Err(Pan::Msg(_)) => {}
                _ => violation(format!("{what} of a tree of size {:?} was not rejected", m.size())),
            }
            return;
        };
        let starts = m.starts();
        let want: Vec<Seen> = runs.iter().map(|i| Self::want(m, *i, starts[*i])).collect();
        let (mut lo, mut hi) = (0, want.len());
        let mut g = Rng::new(op.d as u64 ^ 0x17E2);
        let mode = g.below(4);
        let lim = if g.chance(1, 3) { g.below(want.len() as u64 + 3) as usize } else { want.len() + 3 };
        let faulty = !op.f.is_empty();
        if faulty {
            self.arm(op);
            let e = sut(|| {
                let mut it = t.iter_with_cursor(hint.unwrap_or_default(), real);
                for k in 0..lim {
                    let e = if (k + op.a as usize) % 2 == 0 { it.next() } else { it.next_back() };
                    if let Some(e) = e {
                        Self::seen(&e);
                    }
                }
            });
            self.disarm();
            if let Err(Pan::Msg(p)) = e {
                violation(format!("{what} panicked: {p}"));
            }
            return;
        }
        macro_rules! go {
            ($it:expr) => {{
                let mut it = ok(&what, || $it);
                for k in 0..lim {
                    let front = match mode {
                        0 => true,
                        1 => false,
                        2 => k % 2 == 0,
                        _ => g.chance(1, 2),
                    };
                    Self::iter_steps(&mut it, &want, (&mut lo, &mut hi), front, &what);
                    between(self, k as u32);
                }
                ok("dropping an iterator", || drop(it));
            }};
        }
        begin_op();
        match hint {
            None => go!(t.iter(real)),
            Some(c) => go!(t.iter_with_cursor(c, real)),
        }
    }

    // -------------------------------------------------------------- references

    fn model_of(&self, uid: u64) -> Option<&Model> {
        self.hs.iter().flatten().find(|h| h.uid == uid).map(|h| &h.m)
    }

    fn check_refs(&self) {
        let n = self.shared.borrow().refs.len();
        for k in 0..n {
            self.check_ref(k, k % 3 == 0);
        }
        for b in &self.borrows {
            self.check_borrow(b);
        }
    }

    fn check_borrow(&self, b: &BorrowEnt<P::Ref, MJ>) {
        match b.b.as_ref().unwrap() {
            Part::All(v) => {
                v.check("borrowed slice");
                if v.id != b.id || (v.tag, v.off, v.len) != b.piece {
                    violation(format!("borrowed slice #{} changed while borrowed", b.id));
                }
            }
            Part::Len(l) => {
                if **l != b.piece.2 {
                    violation(format!("borrowed part of slice #{} changed while borrowed", b.id));
                }
            }
        }
    }

    /// Compares everything a reference says with what it must say now
    fn check_ref(&self, k: usize, deep: bool) {
        let (r, uid, key) = {
            let s = self.shared.borrow();
            let e = &s.refs[k];
            (e.r.clone(), e.uid, e.key)
        };
        let (alive, borrows, poisoned) = {
            let s = self.shared.borrow();
            let t = &s.trees[&uid];
            (t.alive, t.borrows, t.poisoned)
        };
        if poisoned {
            let _ = sut(|| {
                let _ = (r.is_valid(), r.can_borrow());
                let _ = r.try_range();
                if let Some(b) = r.try_borrow_slice() {
                    b.check("slice borrowed from a tree whose insertion panicked");
                }
            });
            return;
        }
        let frozen;
        let model = if alive {
            self.model_of(uid)
        } else {
            frozen = self.shared.borrow().trees[&uid].frozen.clone();
            frozen.as_ref()
        };
        let exp = model.and_then(|m| key.and_then(|k| m.by_key(k)).map(|(i, p)| Self::want(m, i, p)));
        let what = format!("reference {k}");
        let (valid, can) = ok(&what, || (r.is_valid(), r.can_borrow()));
        let range = ok(&what, || r.try_range()).map(|r| (r.start.enc(), r.end.enc()));
        let slice = ok(&what, || {
            r.try_borrow_slice().map(|b| {
                b.check("borrowed through a reference");
                (b.tag, b.off, b.len)
            })
        });
        if let Some(g) = range {
            match &exp {
                Some(w) if (w.start, w.end) == g => {}
                _ => violation(format!("{what}: range is {g:?}, expected {exp:?}")),
            }
        }
        if let Some(g) = slice {
            match &exp {
                Some(w) if w.piece == g => {}
                _ => violation(format!("{what}: slice is {g:?}, expected {exp:?}")),
            }
        }
        if alive {
            if !valid || !can || range.is_none() || slice.is_none() {
                violation(format!(
                    "{what} to a slice in the tree: valid {valid}, can_borrow {can}, range {range:?}, slice {slice:?}"
                ));
            }
            if deep {
                let w = exp.unwrap();
                let r2 = ok(&what, || r.range());
                let s2 = ok(&what, || {
                    let b = r.borrow_slice();
                    (b.tag, b.off, b.len)
                });
                if (r2.start.enc(), r2.end.enc()) != (w.start, w.end) || s2 != w.piece {
                    violation(format!("{what}: range()/borrow_slice() disagree with try_range()/try_borrow_slice()"));
                }
                let hi = (0..SLOTS).find(|i| self.hs[*i].as_ref().map_or(false, |h| h.uid == uid)).unwrap();
                let c = ok(&what, || r.cursor());
                let run = self.h(hi).m.find(w.start).0;
                self.check_cursor_of(hi, run, &c, "of a reference");
                let c = ok(&what, || r.try_cursor());
                match c {
                    Some(c) => self.check_cursor_of(hi, run, &c, "of a reference (try_cursor)"),
                    None => violation(format!("{what}: try_cursor refused although the tree can be read")),
                }
            }
        } else if borrows == 0 {
            if valid || can || range.is_some() || slice.is_some() {
                violation(format!(
                    "{what} to a dropped tree: valid {valid}, can_borrow {can}, range {range:?}, slice {slice:?}"
                ));
            }
            if deep {
                let c = ok(&what, || r.try_cursor());
                if c.is_some() {
                    violation(format!("{what} to a dropped tree still yields a cursor"));
                }
                for (name, e) in [
                    ("range", sut(|| drop(r.range()))),
                    ("borrow_slice", sut(|| drop(r.borrow_slice()))),
                    ("cursor", sut(|| drop(r.cursor()))),
                ] {
                    if e.is_ok() {
                        violation(format!("{what} to a dropped tree: {name}() did not panic"));
                    }
                }
            }
        }
    }

    /// User code re-entering through references from inside callbacks of the coming operation on tree `uid`
    fn hook(&mut self, seed: u32, uid: u64, pre: Option<Model>, post: Option<Model>, destroy: bool) {
        let shared = self.shared.clone();
        let mut g = Rng::new(seed as u64 ^ 0x4007);
        let limbo = self.borrows_of(uid) > 0;
        let mut armed_dead = false;
        ctx().reent = Some(Box::new(move |kind| {
            if !g.chance(1, 1 + (seed as u64 >> 8) % 4) {
                return;
            }
            let n = shared.borrow().refs.len();
            if n == 0 {
                return;
            }
            let k = g.below(n as u64) as usize;
            let (r, ruid, key) = {
                let s = shared.borrow();
                (s.refs[k].r.clone(), s.refs[k].uid, s.refs[k].key)
            };
            let armed = std::mem::take(&mut ctx().armed);
            let p = std::mem::take(per());
            let at = format!("reference {k} used in {} callback", CB_NAMES[kind as usize]);
            match g.below(8) {
                0 | 1 => {
                    // clone, and keep the clone
                    let d = ok(&at, || r.dup());
                    if n < 24 {
                        shared.borrow_mut().refs.push(RefEnt { r: Rc::new(d), uid: ruid, key });
                    } else {
                        ok(&at, || drop(d));
                    }
                }
                2 if n > 1 => {
                    let e = shared.borrow_mut().refs.swap_remove(k);
                    ok(&at, || drop(r));
                    ok(&at, || drop(e));
                }
                _ => {
                    let (valid, can) = ok(&at, || (r.is_valid(), r.can_borrow()));
                    let range = ok(&at, || r.try_range()).map(|x| (x.start.enc(), x.end.enc()));
                    let slice = ok(&at, || {
                        r.try_borrow_slice().map(|b| {
                            b.check("borrowed in a callback");
                            (b.tag, b.off, b.len)
                        })
                    });
                    if ruid == uid {
                        let poisoned = shared.borrow().trees[&uid].poisoned;
                        let accepted = range.is_some() || slice.is_some();
                        let mutating = matches!(kind, Cb::Split | Cb::Join) && !destroy;
                        let destroying = destroy && !limbo && kind == Cb::Drop;
                        armed_dead |= destroying;
                        if accepted && (mutating || destroying) {
                            violation(format!("{at}: read was allowed (range {range:?}, slice {slice:?})"));
                        }
                        if destroying && (can || valid) {
                            violation(format!("{at}: can_borrow {can}, is_valid {valid} while the tree is being destroyed"));
                        }
                        if mutating && can {
                            violation(format!("{at}: can_borrow while the tree is being mutated"));
                        }
                        if armed_dead && accepted {
                            violation(format!("{at}: read was allowed after destruction began"));
                        }
                        if !poisoned && accepted {
                            let ok_in = |m: &Option<Model>| {
                                let w = m.as_ref().and_then(|m| {
                                    key.and_then(|k| m.by_key(k)).map(|(i, p)| Self::want(m, i, p))
                                });
                                w.map_or(false, |w| {
                                    range.map_or(true, |g| g == (w.start, w.end)) && slice.map_or(true, |g| g == w.piece)
                                })
                            };
                            if !ok_in(&pre) && !ok_in(&post) {
                                violation(format!("{at}: half-updated data: range {range:?}, slice {slice:?}"));
                            }
                        }
                        stats().add(if accepted { "fault: re-entrant read, allowed" } else { "fault: re-entrant read, refused" }, 1);
                    }
                    ok(&at, || drop(r));
                }
            }
            *per() = p;
            ctx().armed = armed;
        }));
    }

    /// User code reading from inside the callbacks of a read of tree `t`: through the tree and through references.
    /// If the tree is in `own`, the read goes through a reference and user code may also drop or try to change it.
    #[allow(clippy::type_complexity)]
    fn nest(&self, re: u32, uid: u64, t: *const Tree<I, MJ, P, M>, m: &Model, own: Option<Rc<RefCell<Option<Tree<I, MJ, P, M>>>>>) {
        if re == 0 || m.runs.is_empty() {
            return;
        }
        let m = m.clone();
        let shared = self.shared.clone();
        let mut g = Rng::new(re as u64 ^ 0x4E57);
        let mut left = 40;
        ctx().reent = Some(Box::new(move |kind| {
            if left == 0 || !g.chance(1, 1 + (re as u64 >> 8) % 12) || shared.try_borrow_mut().is_err() {
                return;
            }
            left -= 1;
            let armed = std::mem::take(&mut ctx().armed);
            let p = std::mem::take(per());
            let at = format!("read in {} callback of a read", CB_NAMES[kind as usize]);
            // SAFETY: the tree stays where it is during the operation; one in `own` until it is taken from there
            let t = match &own {
                None => Some(unsafe { &*t }),
                Some(o) => o.borrow().as_ref().map(|t| unsafe { &*(t as *const Tree<I, MJ, P, M>) }),
            };
            stats().add("fault: re-entrant read during a read", 1);
            let pos = read_pos(I::DIM, &m, g.u32(), g.u32());
            let n = shared.borrow().refs.len();
            match (g.below(12), t) {
                (0 | 1, Some(t)) => Self::check_get(&at, t, &m, pos, None),
                (2, Some(t)) => {
                    let starts = m.starts();
                    let want: Vec<Seen> = (m.find(pos).0..m.runs.len()).map(|i| Self::want(&m, i, starts[i])).collect();
                    let (mut lo, mut hi) = (0, want.len());
                    let mut it = ok(&at, || t.iter(I::dec(pos)..));
                    for _ in 0..g.below(6) {
                        Self::iter_steps(&mut it, &want, (&mut lo, &mut hi), g.chance(1, 2), &at);
                    }
                    ok(&at, || drop(it));
                }
                (3, Some(t)) => {
                    let got = ok(&at, || (t.size().enc(), t.number_of_slices()));
                    if got != (m.size(), m.runs.len()) {
                        violation(format!("{at}: size and number of slices are {got:?}"));
                    }
                }
                (4, Some(t)) => {
                    let c = ok(&at, || t.cursor_to::<Cur>(I::dec(pos)));
                    Self::check_get(&at, t, &m, pos, Some(c));
                }
                (5 | 6, Some(t)) if P::KIND == Kind::Refs => {
                    let r = ok(&at, || P::make_ref(&t.get(I::dec(pos)))).unwrap();
                    let key = m.runs[m.find(pos).0].key;
                    if n < 24 {
                        shared.borrow_mut().refs.push(RefEnt { r: Rc::new(r), uid, key: Some(key) });
                    } else {
                        ok(&at, || drop(r));
                    }
                }
                (5, Some(t)) => {
                    let c = ok(&at, || P::clone_tree(t)).unwrap();
                    Self::check_get(&at, &c, &m, pos, None);
                    ok(&at, || drop(c));
                }
                (7, Some(_)) if own.is_some() => {
                    let live = ctx().live;
                    let len = gen_len(I::DIM, g.u32());
                    let v = Val::<MJ>::new(9, ORIGIN, len);
                    let mut o = own.as_ref().unwrap().borrow_mut();
                    let t = o.as_mut().unwrap();
                    let at = insert_pos(I::DIM, &m, g.u32(), g.u32(), ORIGIN);
                    match sut(|| t.insert(I::dec(at), v, I::dec(len))) {
                        Err(Pan::Msg(_)) => {}
                        _ => violation("insertion was accepted while a reference reads the tree"),
                    }
                    if ctx().live != live {
                        violation(format!("a rejected insertion left {} slices, not {live}", ctx().live));
                    }
                    stats().add("insertion during a read through a reference, refused", 1);
                }
                (8, Some(_)) if own.is_some() && g.chance(1, 3) => {
                    let live = ctx().live;
                    let t = own.as_ref().unwrap().borrow_mut().take();
                    ok("dropping a tree that a reference reads", || drop(t));
                    if ctx().live != live {
                        violation(format!("dropping a tree that a reference reads destroyed {} slices", live - ctx().live));
                    }
                    stats().add("tree dropped during a read through a reference", 1);
                }
                _ if n > 0 => {
                    let k = g.below(n as u64) as usize;
                    let (r, ruid, key) = {
                        let s = shared.borrow();
                        (s.refs[k].r.clone(), s.refs[k].uid, s.refs[k].key)
                    };
                    let what = g.below(8);
                    if what == 0 && n < 24 {
                        let d = ok(&at, || r.dup());
                        shared.borrow_mut().refs.push(RefEnt { r: Rc::new(d), uid: ruid, key });
                    } else if what == 1 && n > 1 {
                        let e = shared.borrow_mut().refs.swap_remove(k);
                        ok(&at, || drop(e));
                    } else if ruid == uid && kind == Cb::Drop {
                        // the read is over, and so is the tree
                        let at = format!("{at}, reference {k}");
                        let (valid, can) = ok(&at, || (r.is_valid(), r.can_borrow()));
                        let range = ok(&at, || r.try_range()).is_some();
                        let slice = ok(&at, || r.try_borrow_slice().is_some());
                        let cursor = ok(&at, || r.try_cursor()).is_some();
                        if valid || can || range || slice || cursor {
                            violation(format!("{at}: a tree that is being destroyed can be read"));
                        }
                    } else if ruid == uid {
                        let at = format!("{at}, reference {k}");
                        let w = key.and_then(|k| m.by_key(k)).map(|(i, p)| Self::want(&m, i, p)).unwrap();
                        let (valid, can) = ok(&at, || (r.is_valid(), r.can_borrow()));
                        let range = ok(&at, || r.range());
                        let range = (range.start.enc(), range.end.enc());
                        let piece = ok(&at, || {
                            let b = r.borrow_slice();
                            b.check("borrowed in a callback");
                            (b.tag, b.off, b.len)
                        });
                        if !valid || !can || range != (w.start, w.end) || piece != w.piece {
                            violation(format!(
                                "{at}: valid {valid}, can_borrow {can}, range {range:?}, slice {piece:?}, expected {w:?}"
                            ));
                        }
                        let c = ok(&at, || r.cursor());
                        if let Some(t) = t {
                            let d = ok(&at, || t.cursor_to::<Cur>(I::dec(w.start)));
                            if path_vals(&c) != path_vals(&d) {
                                violation(format!("{at}: cursor {:?}, cursor_to {:?}", path_vals(&c), path_vals(&d)));
                            }
                        }
                    }
                    ok(&at, || drop(r));
                }
                _ => {}
            }
            *per() = p;
            ctx().armed = armed;
        }));
    }

    /// One read through a reference, during which user code may read, panic, drop the tree and try to change it
    fn ref_nested(&mut self, op: &Op) {
        let n = self.shared.borrow().refs.len();
        let (r, uid, key) = {
            let s = self.shared.borrow();
            let e = &s.refs[op.a as usize % n];
            (e.r.clone(), e.uid, e.key)
        };
        let Some(hi) = (0..SLOTS).find(|i| self.hs[*i].as_ref().is_some_and(|h| h.uid == uid)) else { return };
        if self.h(hi).poisoned {
            return;
        }
        let h = self.hs[hi].take().unwrap();
        let H { t, m, last, twin, .. } = h;
        let want = key.and_then(|k| m.by_key(k)).map(|(i, p)| Self::want(&m, i, p)).unwrap();
        let path = path_vals(&ok("cursor_to", || t.cursor_to::<Cur>(I::dec(want.start))));
        let own = Rc::new(RefCell::new(Some(t)));
        let borrows = self.borrows_of(uid);
        let live = ctx().live;
        self.nest(op.re, uid, std::ptr::null(), &m, Some(own.clone()));
        begin_op();
        self.arm(op);
        let which = op.c % 5;
        let got = sut(|| {
            let mut s = want.clone();
            let mut c = None;
            match which {
                0 | 1 => {
                    let x = if which == 0 { r.range() } else { r.try_range().unwrap() };
                    (s.start, s.end) = (x.start.enc(), x.end.enc());
                }
                2 | 3 => c = Some(if which == 2 { r.cursor() } else { r.try_cursor().unwrap() }),
                _ => {
                    let b = r.borrow_slice();
                    let piece = (b.tag, b.off, b.len);
                    let l = Borrow::map(b, |v| {
                        callback(Cb::Map);
                        &v.len
                    });
                    s.piece = (piece.0, piece.1, *l);
                }
            }
            (s, c)
        });
        self.disarm();
        let t = own.borrow_mut().take();
        match got {
            Ok((s, c)) => {
                Self::same(s, &want, "read through a reference with user code reading meanwhile");
                if c.as_ref().is_some_and(|c| path_vals(c) != path) {
                    violation(format!("cursor of a reference is {:?}, should be {path:?}", path_vals(&c.unwrap())));
                }
            }
            Err(Pan::Inj) => {}
            Err(Pan::Msg(e)) => violation(format!("read through a reference panicked: {e}")),
        }
        let gone = if t.is_none() && borrows == 0 { m.runs.len() } else { 0 };
        if ctx().live + gone != live {
            violation(format!(
                "a read through a reference (tree dropped meanwhile: {}, borrows {borrows}) destroyed {} slices, should be {gone}",
                t.is_none(),
                live as i64 - ctx().live as i64,
            ));
        }
        match t {
            Some(t) => self.hs[hi] = Some(H { t, m, poisoned: false, uid, last, twin }),
            None => {
                let mut s = self.shared.borrow_mut();
                let t = s.trees.get_mut(&uid).unwrap();
                t.alive = false;
                t.borrows = borrows;
                t.frozen = if borrows > 0 { Some(m) } else { None };
            }
        }
    }

    // -------------------------------------------------------------- dropping

    pub fn drop_handle(&mut self, h: H<I, MJ, P, M>) {
        self.drop_handle_op(h, &Op { k: K::Drop, h: 0, a: 0, b: 0, c: 0, d: 0, f: vec![], re: 0, un: false })
    }

    fn drop_handle_op(&mut self, h: H<I, MJ, P, M>, op: &Op) {
        let H { t, m, poisoned, uid, twin, .. } = h;
        let n = m.runs.len();
        let borrows = self.borrows_of(uid);
        if op.re != 0 && P::KIND == Kind::Refs {
            self.hook(op.re, uid, Some(m.clone()), None, true);
        }
        let before = ctx().live;
        begin_op();
        self.arm(op);
        let r = sut(|| drop(t));
        self.disarm();
        if !poisoned {
            self.check_steps("drop", n);
        }
        if let Err(Pan::Msg(e)) = &r {
            if !poisoned {
                violation(format!("dropping a tree of {n} slices panicked: {e}"));
            }
        }
        if sched::tid() == sched::MAIN && !poisoned && r.is_ok() && P::KIND != Kind::Cow {
            let gone = before - ctx().live;
            let want = if borrows > 0 { 0 } else { n };
            if gone != want {
                violation(format!("dropping a tree of {n} slices ({borrows} borrows alive) destroyed {gone} slices"));
            }
        }
        if let Some(t) = self.shared.borrow_mut().trees.get_mut(&uid) {
            t.alive = false;
            t.borrows = borrows;
            t.frozen = if borrows > 0 { Some(m) } else { None };
            t.poisoned |= r.is_err();
        }
        ok("dropping the plain twin", || drop(twin));
    }

    fn drop_borrow(&mut self, k: usize, op: &Op) {
        let mut b = self.borrows.swap_remove(k);
        self.check_borrow(&b);
        let bw = b.b.take();
        let r = b.r.take();
        let uid = b.uid;
        let left = self.borrows_of(uid);
        let (alive, poisoned, n) = {
            let s = self.shared.borrow();
            let t = &s.trees[&uid];
            (t.alive, t.poisoned, t.frozen.as_ref().map_or(0, |m| m.runs.len()))
        };
        let before = ctx().live;
        if op.re != 0 && !alive && left == 0 {
            let m = self.shared.borrow().trees[&uid].frozen.clone();
            self.hook(op.re, uid, m, None, true);
        }
        begin_op();
        self.arm(op);
        let e = sut(|| drop(bw));
        self.disarm();
        if let Err(Pan::Msg(m)) = &e {
            if !poisoned {
                violation(format!("ending a borrow panicked: {m}"));
            }
        }
        {
            let mut s = self.shared.borrow_mut();
            let t = s.trees.get_mut(&uid).unwrap();
            if !alive {
                t.borrows = left;
                if left == 0 {
                    t.frozen = None;
                }
            }
            t.poisoned |= e.is_err();
        }
        if e.is_ok() && !poisoned {
            let gone = before - ctx().live;
            let want = if !alive && left == 0 { n } else { 0 };
            if gone != want {
                violation(format!("ending a borrow (tree alive: {alive}, borrows left: {left}) destroyed {gone} slices, expected {want}"));
            }
        }
        let r = sut(|| drop(r));
        if let Err(Pan::Msg(m)) = r {
            violation(format!("dropping a reference panicked: {m}"));
        }
    }

    // -------------------------------------------------------------- operations

    pub fn exec(&mut self, op: &Op) {
        self.ops += 1;
        ctx().what = format!("op {:?}", op.k);
        if ctx().verbose {
            eprintln!(
                "[{}] {op:?}  handles {:?}",
                if sched::tid() == sched::MAIN { "main".into() } else { format!("thread {}", sched::tid()) },
                self.hs.iter().map(|h| h.as_ref().map_or(-1, |h| h.m.runs.len() as i64)).collect::<Vec<_>>()
            );
        }
        stats().op(op.k);
        crate::driver::beat();
        sched::point(sched::Pt::Op);
        if op.un {
            stats().add("fault: operation from a destructor while unwinding", 1);
        }
        per().unwinding = op.un;
        self.step(op);
        per().unwinding = false;
        if sched::tid() == sched::MAIN {
            self.light();
        }
        if self.every > 0 && self.ops % self.every == 0 {
            self.check_all();
        }
    }

    fn new_h(&mut self, t: Tree<I, MJ, P, M>, m: Model, twin: Option<RleTree<I, Val<MJ>, NoFeatures, M>>) -> H<I, MJ, P, M> {
        let uid = self.uid();
        if P::KIND == Kind::Refs {
            self.shared
                .borrow_mut()
                .trees
                .insert(uid, TS { alive: true, borrows: 0, poisoned: false, frozen: None });
        }
        H { t, m, poisoned: false, uid, last: ORIGIN, twin }
    }

    fn step(&mut self, op: &Op) {
        match op.k {
            K::New => {
                if self.live().len() >= SLOTS {
                    return;
                }
                let mut m = Model::new(MJ, self.pol);
                if op.b % 4 == 0 {
                    let t = ok("new_empty", || RleTree::new_empty());
                    let tw = self.twin.then(|| RleTree::new_empty());
                    let h = self.new_h(t, m, tw);
                    self.put(h);
                    return;
                }
                let (tag, off, len) = self.value(&m, ORIGIN, op.c);
                m.insert(ORIGIN, tag, off, len, &mut self.next_key);
                let v = Val::new(tag, off, len);
                match self.call(op, 0, None, false, || RleTree::new(v, I::dec(len))) {
                    Ok(t) => {
                        let tw = self.twin.then(|| ok("new", || RleTree::new(Val::new(tag, off, len), I::dec(len))));
                        let h = self.new_h(t, m, tw);
                        self.put(h);
                    }
                    Err(Pan::Inj) => {}
                    Err(Pan::Msg(e)) => violation(format!("new panicked: {e}")),
                }
            }
            K::Insert | K::InsertRef => {
                let Some(hi) = self.pick(op.h) else { return };
                let m = self.h(hi).m.clone();
                let mut pos = insert_pos(I::DIM, &m, op.a, op.b, self.h(hi).last);
                if op.b >> 26 & 7 == 5 {
                    pos = self.inner_pos(hi, op.a, op.b).unwrap_or(pos);
                }
                let val = self.value(&m, pos, op.c);
                let c = self.make_hint(op.d, hi, pos);
                self.insert(hi, pos, val, c, op.k == K::InsertRef, op);
            }
            K::Bulk => {
                let Some(hi) = self.pick(op.h) else { return };
                if self.h(hi).poisoned || sched::tid() != sched::MAIN || self.twin || self.borrows_of(self.h(hi).uid) > 0 {
                    return;
                }
                let k = if M < 100 {
                    8 + op.c % 56
                } else if op.d & 15 == 0 {
                    33_000
                } else {
                    250 + op.c % 900
                };
                let mut g = Rng::new(op.a as u64);
                begin_op();
                for i in 0..k {
                    let tag = self.tag();
                    let mut len = gen_len(I::DIM, g.u32());
                    if M > 100 {
                        len[0] = 1 + (len[0] & 3);
                    }
                    let h = self.hs[hi].as_mut().unwrap();
                    let n = h.m.runs.len();
                    // the end, the beginning or between
                    let at = match op.b & 3 {
                        1 if k < 2000 => 0,
                        2 if k < 2000 => n / 2,
                        3 if k < 2000 => (i as usize * 7) % (n + 1),
                        _ => n,
                    };
                    let pos = if at == n { h.t.size().enc() } else { h.m.start_of(at) };
                    let v = Val::<MJ>::new(tag, ORIGIN, len);
                    ok("bulk insertion", || h.t.insert(I::dec(pos), v, I::dec(len)));
                    self.next_key += 1;
                    h.m.runs.insert(at, Run { len, tag, off: ORIGIN, key: self.next_key });
                    if op.b & 4 != 0 && i % 16 == 7 {
                        begin_op();
                    }
                }
                stats().max("slices in one tree", self.h(hi).m.runs.len() as u64);
            }
            K::Burst => {
                let Some(hi) = self.pick(op.h) else { return };
                let m = self.h(hi).m.clone();
                let mut pos = insert_pos(I::DIM, &m, op.a, op.b, self.h(hi).last);
                let k = 2 + op.c % 14;
                let mut g = Rng::new(op.c as u64);
                let inner = op.d >> 10 & 3 == 0;
                for _ in 0..k {
                    if inner {
                        pos = self.inner_pos(hi, op.a, op.b | 1).unwrap_or(pos);
                    }
                    let m = self.h(hi).m.clone();
                    let mut r = g.u32();
                    if inner && r >> 31 == 1 {
                        // continues what is on its left
                        r = r & !7 | 2;
                    }
                    let val = self.value(&m, pos, r);
                    let c = self.make_hint(op.d, hi, pos);
                    self.insert(hi, pos, val, c, false, op);
                    if self.h(hi).poisoned {
                        return;
                    }
                    match op.d >> 8 & 3 {
                        0 => {}
                        1 => pos = self.h(hi).last,
                        2 => pos = self.h(hi).m.size(),
                        _ => pos = then(pos, ORIGIN),
                    }
                    if pos > self.h(hi).m.size() {
                        pos = self.h(hi).m.size();
                    }
                }
            }
            K::Get | K::CursorTo => {
                let Some(hi) = self.pick(op.h) else { return };
                let h = self.h(hi);
                if h.poisoned || h.m.runs.is_empty() {
                    if h.poisoned {
                        Self::check_full("handle", &h.t, &h.m, true);
                    }
                    return;
                }
                let pos = read_pos(I::DIM, &h.m, op.a, op.b);
                let n = h.m.runs.len();
                if !op.f.is_empty() {
                    begin_op();
                    self.arm(op);
                    let h = self.h(hi);
                    let c = hint(op.d, &self.pool, M).unwrap_or_default();
                    let r = sut(|| {
                        if op.k == K::Get {
                            Self::seen(&h.t.get_with_cursor(c, I::dec(pos)));
                        } else {
                            let _ = h.t.cursor_to::<Cur>(I::dec(pos));
                        }
                    });
                    self.disarm();
                    if let Err(Pan::Msg(e)) = r {
                        violation(format!("lookup panicked: {e}"));
                    }
                    return;
                }
                if op.k == K::Get {
                    let c = self.make_hint(op.d, hi, pos);
                    begin_op();
                    let h = self.h(hi);
                    self.nest(op.re, h.uid, &h.t, &h.m, None);
                    Self::check_get(&format!("handle {hi}"), &h.t, &h.m, pos, c);
                    self.check_index_ops("lookup", n, false);
                    self.check_steps("lookup", n);
                } else {
                    begin_op();
                    let h = self.h(hi);
                    self.nest(op.re, h.uid, &h.t, &h.m, None);
                    let c = ok("cursor_to", || h.t.cursor_to::<Cur>(I::dec(pos)));
                    self.check_index_ops("cursor_to", n, false);
                    self.check_steps("cursor_to", n);
                    self.pool_push(c);
                }
                self.disarm();
            }
            K::Iter => {
                let Some(hi) = self.pick(op.h) else { return };
                if self.h(hi).poisoned {
                    return;
                }
                let h = self.hs[hi].take().unwrap();
                if op.f.is_empty() && op.d >> 20 & 3 == 0 {
                    let (r, o) = (self.gen_range(&h.m, op.a, op.b, op.c), self.gen_range(&h.m, op.b, op.a, op.d >> 3));
                    let at = if op.c & 4096 == 0 { r.x } else { o.y };
                    r.predicates::<I>(&o, at);
                }
                self.nest(op.re, h.uid, &h.t, &h.m, None);
                self.iter_on(&h.t, &h.m, op, |_, _| {});
                self.disarm();
                self.hs[hi] = Some(h);
            }
            K::IterWhile => {
                let Some(hi) = self.pick(op.h) else { return };
                if self.h(hi).poisoned {
                    return;
                }
                let h = self.hs[hi].take().unwrap();
                if self.cost {
                    self.held = Self::check_full("handle to be iterated", &h.t, &h.m, false);
                }
                let mut g = Rng::new(op.c as u64 ^ (op.b as u64) << 32);
                let mut budget = 6;
                self.iter_on(&h.t, &h.m, op, |w, _| {
                    if budget > 0 && g.chance(1, 3) {
                        budget -= 1;
                        let k = match g.below(6) {
                            0 => K::Clone,
                            1 => K::Drop,
                            _ => K::Insert,
                        };
                        let o = Op { k, h: g.u32() as u8, a: g.u32(), b: g.u32(), c: g.u32(), d: 0, f: vec![], re: 0, un: false };
                        // keep one slot for the handle that is being iterated
                        if k != K::Clone || w.live().len() + 1 < SLOTS {
                            w.step(&o);
                        }
                    }
                });
                self.held.clear();
                let k = self.hs.iter().position(|h| h.is_none()).unwrap();
                self.hs[k] = Some(h);
            }
            K::Clone => {
                let Some(hi) = self.pick(op.h) else { return };
                if self.live().len() >= SLOTS || P::KIND == Kind::Refs {
                    return;
                }
                let h = self.hs[hi].take().unwrap();
                let n = h.m.runs.len();
                let before = ctx().live;
                if !h.poisoned {
                    self.nest(op.re, h.uid, &h.t, &h.m, None);
                }
                let r = self.call(op, h.uid, None, false, || P::clone_tree(&h.t).unwrap());
                let p = per();
                match r {
                    Ok(t) => {
                        if !h.poisoned {
                            let want = if P::KIND == Kind::Cow { 0 } else { n };
                            if p.clones.len() != want {
                                violation(format!("cloning a tree of {n} slices duplicated {}", p.clones.len()));
                            }
                            if P::KIND == Kind::Cow {
                                self.check_steps("clone", n);
                            }
                        }
                        let tw = h.twin.as_ref().map(|t| ok("clone of the twin", || t.clone()));
                        let mut c = self.new_h(t, h.m.clone(), tw);
                        c.poisoned = h.poisoned;
                        c.last = h.last;
                        if P::KIND == Kind::Plain && !h.poisoned {
                            let a = Self::check_full("original", &h.t, &h.m, false);
                            let b = Self::check_full("clone", &c.t, &c.m, false);
                            let a: HashSet<u32> = a.into_iter().collect();
                            if b.iter().any(|x| a.contains(x)) {
                                violation("a plain clone shares a slice with the original");
                            }
                            self.same_shape(&h, &c);
                        }
                        self.put(c);
                    }
                    Err(Pan::Inj) => {
                        if !h.poisoned && sched::tid() == sched::MAIN && ctx().fired[Cb::Drop as usize] == 0 && ctx().live != before {
                            violation(format!(
                                "a clone that panicked left {} slices behind",
                                ctx().live as i64 - before as i64
                            ));
                        }
                        Self::check_full("original of a clone that panicked", &h.t, &h.m, h.poisoned);
                    }
                    Err(Pan::Msg(e)) => {
                        if !h.poisoned {
                            violation(format!("clone panicked: {e}"));
                        }
                    }
                }
                self.hs[hi] = Some(h);
            }
            K::Drop => {
                let Some(hi) = self.pick(op.h) else { return };
                let h = self.hs[hi].take().unwrap();
                self.drop_handle_op(h, op);
            }
            K::Reject => self.reject(op),
            K::Many => self.many(op),
            K::Liar => crate::liar::run(op),
            K::Mock => crate::mock::run(op),
            K::Constant => crate::constant::run(op),
            K::Paths => {
                if let Some(hi) = self.pick(op.h) {
                    let h = self.h(hi);
                    if !h.poisoned {
                        self.nest(op.re, h.uid, &h.t, &h.m, None);
                    }
                    self.paths(hi);
                    self.disarm();
                }
            }
            K::Serde => {
                if let Some(hi) = self.pick(op.h) {
                    if !self.h(hi).poisoned {
                        crate::sd::serde_op(self, hi, op);
                    }
                }
            }
            K::DoubleJoin => {
                let Some(hi) = self.pick(op.h) else { return };
                if !MJ || self.h(hi).poisoned {
                    return;
                }
                let tag = self.tag();
                let at = self.h(hi).m.size();
                let l = gen_len(I::DIM, op.a);
                let l2 = gen_len(I::DIM, op.b);
                let (ta, tb) = (tag, self.tag());
                let o = Op { f: vec![], ..op.clone() };
                self.insert(hi, at, (ta, ORIGIN, l), None, false, &o);
                let at2 = self.h(hi).m.size();
                // separate the two with another slice's tag, then close the gap
                let off2 = then(l, l2);
                if self.pol == 2 {
                    self.insert(hi, at2, (ta, off2, l), None, op.c & 1 == 1, &o);
                    self.insert(hi, at2, (ta, l, l2), None, false, &o);
                } else {
                    let _ = tb;
                }
            }
            K::Drain => crate::drain::drain_op(self, op),
            K::DrainDrop => {
                let Some(hi) = self.pick(op.h) else { return };
                if self.h(hi).poisoned || self.h(hi).m.runs.is_empty() {
                    return;
                }
                let (mut x, mut y) =
                    (read_pos(I::DIM, &self.h(hi).m, op.a, op.b), read_pos(I::DIM, &self.h(hi).m, op.c, op.d));
                if y < x {
                    std::mem::swap(&mut x, &mut y);
                }
                // What is left of the tree is a finding on record; everything else must not notice.
                let had = ctx().live;
                begin_op();
                let h = self.hm(hi);
                ok("drain dropped without a step", || drop(h.t.drain(I::dec(x)..I::dec(y))));
                if ctx().live > had {
                    violation("draining created slices");
                }
                self.poison(hi);
                ctx().leak_ok = true;
                self.check_all();
            }
            K::MakeRef => {
                let Some(hi) = self.pick(op.h) else { return };
                let h = self.h(hi);
                if P::KIND != Kind::Refs || h.poisoned || h.m.runs.is_empty() || self.shared.borrow().refs.len() >= 24 {
                    return;
                }
                let pos = read_pos(I::DIM, &h.m, op.a, op.b);
                let key = h.m.runs[h.m.find(pos).0].key;
                let uid = h.uid;
                self.nest(op.re, h.uid, &h.t, &h.m, None);
                let r = ok("make_ref", || P::make_ref(&h.t.get(I::dec(pos)))).unwrap();
                self.disarm();
                self.shared.borrow_mut().refs.push(RefEnt { r: Rc::new(r), uid, key: Some(key) });
                let k = self.shared.borrow().refs.len() - 1;
                self.check_ref(k, true);
            }
            K::RefRead => {
                let n = self.shared.borrow().refs.len();
                if n > 0 && (op.re != 0 || !op.f.is_empty()) {
                    self.ref_nested(op);
                } else if n > 0 {
                    self.check_ref(op.a as usize % n, op.b & 1 == 0);
                }
            }
            K::RefClone => {
                let n = self.shared.borrow().refs.len();
                if n > 0 && n < 24 {
                    let (r, uid, key) = {
                        let s = self.shared.borrow();
                        let e = &s.refs[op.a as usize % n];
                        (e.r.clone(), e.uid, e.key)
                    };
                    let d = ok("cloning a reference", || r.dup());
                    self.shared.borrow_mut().refs.push(RefEnt { r: Rc::new(d), uid, key });
                    self.check_ref(n, op.b & 1 == 0);
                }
            }
            K::RefDrop => {
                let n = self.shared.borrow().refs.len();
                if n > 0 {
                    let e = self.shared.borrow_mut().refs.swap_remove(op.a as usize % n);
                    ok("dropping a reference", || drop(e.r));
                }
            }
            K::Borrow => {
                let n = self.shared.borrow().refs.len();
                if n == 0 || self.borrows.len() >= 4 {
                    return;
                }
                let (r, uid) = {
                    let s = self.shared.borrow();
                    let e = &s.refs[op.a as usize % n];
                    (e.r.clone(), e.uid)
                };
                // SAFETY: `r` is kept next to the borrow and dropped after it
                let rr = unsafe { &*Rc::as_ptr(&r) };
                let b = match sut(|| rr.try_borrow_slice()) {
                    Ok(b) => b,
                    Err(Pan::Msg(e)) => violation(format!("try_borrow_slice panicked: {e}")),
                    Err(_) => return,
                };
                if let Some(b) = b {
                    // SAFETY: the reference it borrows from is kept (boxed) next to it and dropped after it
                    let b: Borrow<'static, Val<MJ>> = unsafe { std::mem::transmute(b) };
                    let (id, piece) = (b.id, (b.tag, b.off, b.len));
                    self.borrows.push(BorrowEnt { b: Some(Part::All(b)), r: Some(r), uid, id, piece });
                    let alive = self.shared.borrow().trees[&uid].alive;
                    if !alive {
                        self.shared.borrow_mut().trees.get_mut(&uid).unwrap().borrows += 1;
                    }
                }
            }
            K::BorrowClone => {
                let n = self.borrows.len();
                if n == 0 || n >= 4 {
                    return;
                }
                if op.c % 8 == 0 {
                    // from now on only part of the slice is borrowed
                    let b = &mut self.borrows[op.a as usize % n];
                    let x = b.b.take().unwrap();
                    b.b = Some(ok("narrowing a borrow", || x.map(|| drop(callback(Cb::Map)))));
                    return;
                }
                let b = &self.borrows[op.a as usize % n];
                let mut d = ok("cloning a borrow", || b.b.as_ref().unwrap().dup());
                if op.c % 8 == 1 {
                    // the function given to `map` panics: this borrow ends, the original is still there
                    match sut(|| d.map(|| crate::ctx::inject(Cb::Map))) {
                        Err(Pan::Inj) => {}
                        Err(Pan::Msg(m)) => violation(format!("narrowing a borrow panicked: {m}")),
                        Ok(_) => violation("a panic of the function given to map was swallowed".to_string()),
                    }
                    ctx().fired[Cb::Map as usize] += 1;
                    return;
                }
                if op.c % 8 < 4 {
                    d = ok("narrowing a borrow", || d.map(|| drop(callback(Cb::Map))));
                }
                let e = BorrowEnt { b: Some(d), r: b.r.clone(), uid: b.uid, id: b.id, piece: b.piece };
                let mut s = self.shared.borrow_mut();
                let t = s.trees.get_mut(&e.uid).unwrap();
                if !t.alive {
                    t.borrows += 1;
                }
                drop(s);
                self.borrows.push(e);
            }
            K::BorrowRead => {
                for b in &self.borrows {
                    self.check_borrow(b);
                }
            }
            K::BorrowDrop => {
                let n = self.borrows.len();
                if n > 0 {
                    self.drop_borrow(op.a as usize % n, op);
                }
            }
            K::Mail => {
                let Some(mail) = self.mail.clone() else { return };
                let slot = op.a as usize % mail.len();
                let out = self.pick(op.h).map(|i| self.hs[i].take().unwrap());
                let inn = {
                    let mut g = mail[slot].lock().unwrap();
                    std::mem::replace(&mut *g, out.map(AssertSend))
                };
                if let Some(AssertSend(h)) = inn {
                    self.put(h);
                }
            }
            K::SharedRead => {
                let Some(ro) = self.ro.clone() else { return };
                let (t, m) = (&ro.0 .0, &ro.0 .1);
                if op.c & 1 == 0 {
                    self.iter_on(t, m, op, |_, _| {});
                } else if !m.runs.is_empty() {
                    let pos = read_pos(I::DIM, m, op.a, op.b);
                    Self::check_get("shared tree", t, m, pos, None);
                }
                self.release_ro(ro);
            }
            K::SharedClone => {
                let Some(ro) = self.ro.clone() else { return };
                if self.live().len() < SLOTS {
                    begin_op();
                    let t = ok("clone", || P::clone_tree(&ro.0 .0).unwrap());
                    self.check_steps("clone", ro.0 .1.runs.len());
                    let h = self.new_h(t, ro.0 .1.clone(), None);
                    self.put(h);
                }
                self.release_ro(ro);
            }
            K::SharedDrop => {
                if let Some(ro) = self.ro.take() {
                    self.release_ro(ro);
                }
            }
            K::Check => self.check_all(),
        }
    }

    fn many(&mut self, op: &Op) {
        let Some(hi) = self.pick(op.h) else { return };
        if self.h(hi).poisoned || self.h(hi).m.runs.is_empty() {
            return;
        }
        let mut g = Rng::new(op.b as u64 | (op.c as u64) << 32);
        let main = sched::tid() == sched::MAIN;
        let n = match op.a % 16 {
            _ if cfg!(miri) => 8,
            0 if main => 66_000,
            1..=3 => 40,
            _ => 300,
        };
        let ins = Op { k: K::Insert, f: vec![], re: 0, ..op.clone() };
        match P::KIND {
            Kind::Plain => {}
            Kind::Cow => {
                begin_op();
                let h = self.h(hi);
                let mut ts: Vec<_> = (0..n).map(|_| ok("clone", || P::clone_tree(&h.t).unwrap())).collect();
                let m = h.m.clone();
                if !per().clones.is_empty() {
                    violation("cloning handles duplicated slices");
                }
                if !self.cost {
                    self.step(&ins);
                }
                Self::check_full("one of many clones", &ts[g.below(n) as usize], &m, false);
                let order = g.below(3);
                while !ts.is_empty() {
                    let k = match order {
                        0 => ts.len() - 1,
                        1 => g.below(ts.len() as u64) as usize,
                        _ => 0,
                    };
                    let t = ts.swap_remove(k);
                    ok("drop", || drop(t));
                }
                // nothing of it is shared with those any more
                self.step(&ins);
            }
            Kind::Refs => {
                let n = n.min(300);
                let uid = self.h(hi).uid;
                let had = self.shared.borrow().refs.len();
                for _ in 0..n {
                    let h = self.h(hi);
                    let pos = read_pos(I::DIM, &h.m, g.u32(), g.u32());
                    let key = h.m.runs[h.m.find(pos).0].key;
                    let other = self.shared.borrow().refs.iter().find(|e| e.uid == uid && e.key == Some(key)).map(|e| e.r.clone());
                    let r = match other {
                        Some(r) if g.chance(1, 2) => ok("cloning a reference", || r.dup()),
                        _ => ok("make_ref", || P::make_ref(&h.t.get(I::dec(pos)))).unwrap(),
                    };
                    self.shared.borrow_mut().refs.push(RefEnt { r: Rc::new(r), uid, key: Some(key) });
                }
                for _ in 0..2 {
                    self.step(&ins);
                    for _ in 0..3 {
                        let k = g.below((had + n as usize) as u64) as usize;
                        self.check_ref(k, true);
                    }
                }
                while self.shared.borrow().refs.len() > had {
                    let k = g.below(self.shared.borrow().refs.len() as u64) as usize;
                    let e = self.shared.borrow_mut().refs.swap_remove(k);
                    ok("dropping a reference", || drop(e.r));
                }
                self.step(&ins);
                if let Some(b) = self.borrows.first() {
                    let bs: Vec<_> = (0..n).map(|_| ok("cloning a borrow", || b.b.as_ref().unwrap().dup())).collect();
                    self.step(&ins);
                    for b in bs {
                        ok("dropping a borrow", || drop(b));
                    }
                }
            }
        }
    }

    pub fn release_ro(&mut self, ro: Arc<AssertSend<(Tree<I, MJ, P, M>, Model)>>) {
        if let Ok(AssertSend((t, m))) = Arc::try_unwrap(ro) {
            let h = self.new_h(t, m, None);
            self.drop_handle(h);
        }
    }

    /// A position at or in a slice that is a key of an internal node
    fn inner_pos(&self, hi: usize, a: u32, b: u32) -> Option<Pos> {
        let h = self.h(hi);
        if h.poisoned || h.m.runs.len() < 3 || h.m.runs.len() > 400 {
            return None;
        }
        let mut lens = vec![];
        let mut p = ORIGIN;
        for (i, r) in h.m.runs.iter().enumerate() {
            let c = ok("cursor_to", || h.t.cursor_to::<Cur>(I::dec(p)));
            lens.push((c.path.len(), i));
            p = then(p, r.len);
        }
        let deep = lens.iter().map(|l| l.0).max()?;
        lens.retain(|l| l.0 < deep);
        if lens.is_empty() {
            return None;
        }
        let i = lens[a as usize % lens.len()].1;
        let start = h.m.start_of(i);
        if b & 1 == 0 {
            return Some(start);
        }
        Some(gen_inside(I::DIM, h.m.runs[i].len, b >> 1).map_or(start, |x| then(start, x)))
    }

    fn make_hint(&mut self, d: u32, hi: usize, pos: Pos) -> Option<Cur> {
        match d & 7 {
            3 => stats().add("fault: hint that is stale or from another tree", 1),
            4 => stats().add("fault: random hint", 1),
            5 => stats().add("fault: endless hint", 1),
            6 => stats().add("fault: damaged hint", 1),
            _ => {}
        }
        if d & 7 == 7 {
            let h = self.h(hi);
            if !h.poisoned && !h.m.runs.is_empty() && pos < h.m.size() {
                return Some(ok("cursor_to", || h.t.cursor_to::<Cur>(I::dec(pos))));
            }
        }
        hint(d, &self.pool, M)
    }

    fn same_shape(&self, a: &H<I, MJ, P, M>, b: &H<I, MJ, P, M>) {
        let mut p = ORIGIN;
        for r in &a.m.runs {
            let (x, y) = ok("cursor_to", || (a.t.cursor_to::<Cur>(I::dec(p)), b.t.cursor_to::<Cur>(I::dec(p))));
            if path_vals(&x) != path_vals(&y) {
                violation(format!("the clone's structure differs: {:?} and {:?}", path_vals(&x), path_vals(&y)));
            }
            p = then(p, r.len);
        }
    }

    fn reject(&mut self, op: &Op) {
        let Some(hi) = self.pick(op.h) else { return };
        if self.h(hi).poisoned {
            return;
        }
        let m = self.h(hi).m.clone();
        let size = m.size();
        let one = if I::DIM == 1 { [1 + (op.b % 5) as i64, 0, 0, 0] } else { gen_len(4, op.b) };
        let beyond = then(size, one);
        let neg: Pos = if I::DIM == 1 { [-1, 0, 0, 0] } else { [0, 0, 0, -1] };
        let signed = I::NAME != "usize";
        let uid = self.h(hi).uid;
        let live = ctx().live;
        let len = gen_len(I::DIM, op.c);
        let tag = self.tag();
        let bad_len = if op.d & 1 == 0 || !signed { ORIGIN } else { neg };
        let hint = hint(op.d >> 4, &self.pool, M);
        let mut h = self.hs[hi].take().unwrap();
        let which = op.a % 8;
        let mut what = "";
        let hooked = op.re != 0 && P::KIND == Kind::Refs;
        if hooked {
            self.hook(op.re, uid, Some(m.clone()), Some(m.clone()), false);
        }
        begin_op();
        let t = &mut h.t;
        let r = match which {
            0 => {
                what = "insertion beyond the end";
                let v = Val::new(tag, ORIGIN, len);
                let beyond = match signed && op.b % 8 == 0 {
                    true => {
                        what = "insertion before the start";
                        neg
                    }
                    false => beyond,
                };
                sut(|| match hint {
                    None => t.insert(I::dec(beyond), v, I::dec(len)),
                    Some(c) => drop(P::insert_ref(t, Some(c), I::dec(beyond), v, I::dec(len))),
                })
            }
            1 => {
                what = "insertion of a slice of non-positive size";
                let v = Val::new(tag, ORIGIN, len);
                let pos = insert_pos(I::DIM, &m, op.b, op.c, ORIGIN);
                sut(|| match hint {
                    None => t.insert(I::dec(pos), v, I::dec(bad_len)),
                    Some(c) => drop(P::insert_ref(t, Some(c), I::dec(pos), v, I::dec(bad_len))),
                })
            }
            2 => {
                what = "lookup at or beyond the end";
                let at = if op.b & 1 == 0 { size } else { beyond };
                sut(|| match hint {
                    None => drop(t.get(I::dec(at))),
                    Some(c) => drop(t.get_with_cursor(c, I::dec(at))),
                })
            }
            3 => {
                what = "cursor_to at or beyond the end";
                let at = if op.b & 1 == 0 { size } else { beyond };
                sut(|| drop(t.cursor_to::<Cur>(I::dec(at))))
            }
            4 if signed => {
                what = "lookup before the start";
                sut(|| if op.b & 1 == 0 { drop(t.get(I::dec(neg))) } else { drop(t.cursor_to::<Cur>(I::dec(neg))) })
            }
            6 => {
                what = "new tree from a slice of non-positive size";
                let v = Val::<MJ>::new(tag, ORIGIN, len);
                match op.b % 5 {
                    0 => {
                        what = "new tree with more than the greatest number of keys";
                        sut(|| drop(Tree::<I, MJ, NoFeatures, 128>::new(v, I::dec(len))))
                    }
                    1 => {
                        what = "new tree without keys";
                        sut(|| drop(Tree::<I, MJ, NoFeatures, 0>::new(v, I::dec(len))))
                    }
                    2 => {
                        what = "new empty tree with more than the greatest number of keys";
                        drop(v);
                        sut(|| drop(Tree::<I, MJ, NoFeatures, 200>::new_empty()))
                    }
                    _ => sut(|| drop(Tree::<I, MJ, P, M>::new(v, I::dec(bad_len)))),
                }
            }
            _ => {
                let mut mr = MRange { kind: op.b % 8, x: size, y: beyond, refs: op.b >> 8 & 3 == 1 };
                let mut g = Rng::new(op.c as u64);
                match g.below(4) {
                    0 => mr.x = beyond,
                    1 if !m.runs.is_empty() => {
                        // inverted or empty, inside the tree
                        let p = read_pos(I::DIM, &m, g.u32(), g.u32());
                        let q = read_pos(I::DIM, &m, g.u32(), g.u32());
                        mr.x = p.max(q);
                        mr.y = p.min(q);
                    }
                    2 if !m.runs.is_empty() => mr.x = read_pos(I::DIM, &m, g.u32(), g.u32()),
                    3 => mr.y = size,
                    _ => {}
                }
                if mr.expect(&m).is_some() {
                    // a valid range after all
                    self.disarm();
                    self.hs[hi] = Some(h);
                    return;
                }
                let rr = mr.real::<I>();
                let r = sut(|| match hint {
                    None => drop(t.iter(rr)),
                    Some(c) => drop(t.iter_with_cursor(c, rr)),
                });
                if r.is_ok() {
                    violation(format!("iteration over the invalid range {mr:?} of a tree of size {size:?} was not rejected"));
                }
                r
            }
        };
        self.disarm();
        self.hs[hi] = Some(h);
        if what == "insertion before the start" {
            // Not documented to be rejected (only positions beyond the end are): what is in the tree afterwards is
            // unspecified, but it must stay memory.
            stats().add("fault: insertion before the start", 1);
            self.poison(hi);
            self.check_all();
            return;
        }
        match r {
            Err(Pan::Msg(_)) => stats().add("fault: invalid request", 1),
            Ok(()) => violation(format!("{what} was not rejected (size {size:?})")),
            Err(Pan::Inj) => violation("harness: fault during a rejection"),
        }
        if ctx().live != live {
            violation(format!("{what}: {} slices exist after the rejection, {live} before", ctx().live));
        }
        self.check_all();
    }

    /// Ends a world: everything it holds is dropped, in an order decided by `end`
    pub fn finish(&mut self, end: u32) {
        ctx().what = "final drops".into();
        let mut g = Rng::new(end as u64 ^ 0xE4D);
        loop {
            let mut w = vec![];
            for (i, h) in self.hs.iter().enumerate() {
                if h.is_some() {
                    w.push((0, i));
                }
            }
            for i in 0..self.borrows.len() {
                w.push((1, i));
            }
            for i in 0..self.shared.borrow().refs.len() {
                w.push((2, i));
            }
            if w.is_empty() {
                break;
            }
            let (k, i) = *g.pick(&w);
            let mut o = Op { k: K::Drop, h: 0, a: i as u32, b: 0, c: 0, d: 0, f: vec![], re: 0, un: false };
            match k {
                0 => {
                    let h = self.hs[i].take().unwrap();
                    self.drop_handle_op(h, &o);
                }
                1 => self.drop_borrow(i, &o),
                _ => {
                    o.k = K::RefDrop;
                    self.step(&o);
                }
            }
            // what remains is still as it should be
            if g.chance(1, 3) {
                self.check_all();
            }
        }
        if let Some(ro) = self.ro.take() {
            self.release_ro(ro);
        }
    }

    pub fn fresh_empty(&mut self) -> H<I, MJ, P, M> {
        self.new_h(RleTree::new_empty(), Model::new(MJ, self.pol), None)
    }

    pub fn dup(&mut self, k: usize) -> H<I, MJ, P, M> {
        let h = self.hs[k].take().unwrap();
        let t = ok("clone", || P::clone_tree(&h.t).unwrap());
        let mut d = self.new_h(t, h.m.clone(), None);
        d.poisoned = h.poisoned;
        d.last = h.last;
        self.hs[k] = Some(h);
        d
    }

    /// Takes in a tree made elsewhere
    pub fn adopt(&mut self, t: Tree<I, MJ, P, M>, mut m: Model) {
        for r in m.runs.iter_mut() {
            self.next_key += 1;
            r.key = self.next_key;
        }
        let h = self.new_h(t, m, None);
        Self::check_full("new tree", &h.t, &h.m, false);
        self.put(h);
    }

    #[allow(dead_code)]
    pub fn ids(&self) -> HashMap<u64, usize> {
        self.hs.iter().flatten().map(|h| (h.uid, h.m.runs.len())).collect()
    }
}
