//! The crate's reference implementation for fuzzing: the same histories for it, for a tree and for the model, and
//! for the fuzzing kit byte strings, decoded and run.

use crate::alloc::SutFlag;
use crate::ctx::{begin_op, ctx, violation, Armed, Cb};
use crate::feat::{Feat, SRef, Tree};
use crate::geom::{gen_len, hint, insert_pos, read_pos};
use crate::model::{Model, Run};
use crate::rng::Rng;
use crate::spec::Op;
use crate::stats::stats;
use crate::types::{then, without_prefix, without_suffix, Cur, Ix, Ix1, Ix4, Pos, Val, ORIGIN};
use crate::world::{ok, sut, AnyRange, Pan};
use arbitrary::{Arbitrary, Unstructured};
use sherman::mock::{Mock, Ref};
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures};
use sherman::range::{EndBound, StartBound};
use sherman::{RleTree, Slice};
use sherman_fuzz_utils::{
    BasicCommand, CommandSequence, CowCommand, ExtraRunnerInfo, Name, RunnerState, SliceRefCommand,
};

pub fn run(op: &Op) {
    let before = std::mem::replace(&mut ctx().what, String::new());
    match op.a % 16 {
        0 => history::<usize, true, AllowSliceRefs, 3>(op),
        1 => history::<Ix1, true, AllowSliceRefs, 1>(op),
        2 => history::<Ix1, false, AllowSliceRefs, 2>(op),
        3 | 4 => history::<Ix4, true, AllowSliceRefs, 1>(op),
        5 => history::<Ix4, false, AllowSliceRefs, 3>(op),
        6 => history::<Ix1, true, AllowCow, 1>(op),
        7 => history::<Ix4, true, AllowCow, 2>(op),
        8 => history::<Ix4, true, NoFeatures, 1>(op),
        9 => history::<Ix1, true, NoFeatures, 2>(op),
        10 => decoded::<CowCommand<Small, Tok>, 1>(op),
        11 => decoded::<CowCommand<Small, Tok>, 3>(op),
        12 => decoded::<SliceRefCommand<Small, Tok>, 1>(op),
        13 => decoded::<SliceRefCommand<Small, Tok>, 3>(op),
        14 => decoded::<BasicCommand<Small, Tok>, 1>(op),
        _ => decoded::<BasicCommand<Small, Tok>, 3>(op),
    }
    ctx().what = before;
}

// ---------------------------------------------------------------- the reference implementation

struct H<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize> {
    mock: Mock<I, Val<MJ>>,
    /// `None` from the first insertion that merges with both neighbours, which no tree can do
    tree: Option<Tree<I, MJ, P, M>>,
    m: Model,
    refs: Vec<R<P::Ref>>,
    /// references, also those already dropped, make clones illegal
    had_refs: bool,
}

struct R<T> {
    mock: Ref,
    tree: Option<T>,
    key: u64,
}

/// Start, end and contents
type Item = (Pos, Pos, (u32, Pos, Pos));

fn item<I: Ix, const MJ: bool>(what: &str, r: std::ops::Range<I>, size: I, s: &Val<MJ>) -> Item {
    let _f = SutFlag::set(false);
    s.check(what);
    let i = (r.start.enc(), r.end.enc(), (s.tag, s.off, s.len));
    if without_prefix(i.1, i.0) != size.enc() {
        violation(format!("{what}: range {:?}..{:?} but size {:?}", i.0, i.1, size.enc()));
    }
    i
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    if got != want {
        violation(format!("{what} is {got:?}, expected {want:?}"));
    }
}

fn refused<R>(what: &str, f: impl FnOnce() -> R) {
    match sut(f) {
        Ok(_) => violation(format!("{what} was not refused")),
        Err(Pan::Inj) => violation(format!("{what}: harness fault fired outside its operation")),
        Err(Pan::Msg(_)) => {}
    }
}

fn history<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize>(op: &Op) {
    let name = std::any::type_name::<P>();
    let mut g = Rng::new(op.b as u64 | (op.d as u64) << 32);
    let pol = ctx().join_policy;
    let kinds = g.range(2, 7);
    let refs = g.chance(1, 2);
    let mut fresh = 0;
    let mut last = ORIGIN;
    let mut pool: Vec<Cur> = vec![];
    let mut hs: Vec<H<I, MJ, P, M>> = vec![];
    for step in 0..op.c % 70 {
        ctx().what = format!("step {step} of the history of {op:?} for {name}");
        if hs.is_empty() {
            hs.push(start(&mut g, &mut fresh, pol));
        }
        let i = g.below(hs.len() as u64) as usize;
        match g.below(20) {
            0 if hs.len() < 3 && !hs[i].had_refs => {
                let h = &hs[i];
                let mock = ok("clone of the mock", || h.mock.clone());
                let tree = h.tree.as_ref().and_then(|t| ok("clone of the tree", || P::clone_tree(t)));
                let c = H { mock, tree, m: h.m.clone(), refs: vec![], had_refs: false };
                stats().add("mock: clones", 1);
                hs.push(c);
            }
            1 if hs.len() > 1 => {
                let h = hs.swap_remove(i);
                ok("drop", || drop(h));
            }
            2 | 3 => {
                let h = &mut hs[i];
                reject(&mut g, h);
                check(&mut g, h);
            }
            4 | 5 => iterate(&mut g, &hs[i]),
            6 => {
                let h = &mut hs[i];
                if refs && !h.m.runs.is_empty() && h.refs.len() < 10 {
                    make_ref(&mut g, h);
                }
            }
            7 => check(&mut g, &hs[i]),
            8 => {
                let lost = faulty(&mut g, &mut hs[i]);
                if lost {
                    let h = hs.swap_remove(i);
                    ok("drop", || drop(h));
                } else {
                    check(&mut g, &hs[i]);
                }
            }
            _ => {
                let h = &mut hs[i];
                insert(&mut g, h, kinds, refs, &mut last, &mut pool, &mut fresh);
                look(&mut g, h);
            }
        }
    }
    ctx().what = format!("end of the history of {op:?} for {name}");
    for h in &hs {
        check(&mut g, h);
    }
    while let Some(h) = hs.pop() {
        ok("drop", || drop(h));
    }
}

fn start<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize>(g: &mut Rng, fresh: &mut u64, pol: u8) -> H<I, MJ, P, M> {
    let mut m = Model::new(MJ, pol);
    if g.chance(1, 2) {
        let (mock, tree) = ok("new_empty", || (Mock::new_empty(), RleTree::new_empty()));
        return H { mock, tree: Some(tree), m, refs: vec![], had_refs: false };
    }
    let n = gen_len(I::DIM, g.u32());
    m.insert(ORIGIN, 1, ORIGIN, n, fresh);
    let s = || {
        let _f = SutFlag::set(false);
        Val::new(1, ORIGIN, n)
    };
    let (mock, tree) = ok("new", || (Mock::new(s(), I::dec(n)), RleTree::new(s(), I::dec(n))));
    H { mock, tree: Some(tree), m, refs: vec![], had_refs: false }
}

fn insert<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize>(
    g: &mut Rng,
    h: &mut H<I, MJ, P, M>,
    kinds: u64,
    refs: bool,
    last: &mut Pos,
    pool: &mut Vec<Cur>,
    fresh: &mut u64,
) {
    let pos = insert_pos(I::DIM, &h.m, g.u32(), g.u32(), *last);
    let mut len = gen_len(I::DIM, g.u32());
    let (i, _, within) = h.m.find(pos);
    let mut tag = 1 + g.below(kinds) as u32;
    let mut off = ORIGIN;
    let left: Option<Run> = match within == ORIGIN {
        true if i > 0 => Some(h.m.runs[i - 1].clone()),
        true => None,
        false => Some(Run { len: within, ..h.m.runs[i].clone() }),
    };
    let right = if within == ORIGIN { h.m.runs.get(i).cloned() } else { None };
    // what continues a neighbour, or both
    match (g.below(8), left, right) {
        // contents missing between them
        (4.., Some(l), Some(r)) if l.tag == r.tag && then(l.off, l.len) < r.off => {
            (tag, off) = (l.tag, then(l.off, l.len));
            len = without_prefix(r.off, off);
        }
        // leave some out
        (4 | 5, Some(l), _) => (tag, off) = (l.tag, then(then(l.off, l.len), gen_len(I::DIM, g.u32()))),
        (0, Some(l), _) => (tag, off) = (l.tag, then(l.off, l.len)),
        (1, _, Some(r)) => (tag, off) = (r.tag, without_suffix(r.off, len)),
        (2, Some(l), _) => tag = l.tag,
        _ => {}
    }
    if h.m.would_double(pos, tag, off, len) {
        h.tree = None;
        for r in &mut h.refs {
            r.tree = None;
        }
        stats().add("mock: insertions merging with both neighbours", 1);
    }
    *last = then(pos, len);
    ctx().log(pos[0] as u64 ^ (len[0] as u64) << 20 ^ (tag as u64) << 56);
    let ins = h.m.insert(pos, tag, off, len, fresh);
    if let Some((kept, lost)) = ins.double {
        h.refs.iter_mut().filter(|r| r.key == lost).for_each(|r| r.key = kept);
    }
    let make = refs && g.chance(1, 4) && h.refs.len() < 10;
    begin_op();
    let (at, n) = (I::dec(pos), I::dec(len));
    let s = Val::<MJ>::new(tag, off, len);
    let r = ok("insert of the mock", || h.mock.insert(at, s, n, make));
    same("whether a reference is returned by an insertion", r.is_some(), make);
    stats().add("mock: insertions", 1);
    let mut tr = None;
    if let Some(t) = &mut h.tree {
        begin_op();
        let s = Val::<MJ>::new(tag, off, len);
        let c = hint(g.u32(), pool, M);
        let (c, r) = if make {
            ok("insert_ref of the tree", || P::insert_ref(t, c, at, s, n))
        } else {
            match c {
                None => {
                    ok("insert of the tree", || t.insert(at, s, n));
                    (None, None)
                }
                Some(c) => (Some(ok("insert_with_cursor of the tree", || t.insert_with_cursor(c, at, s, n))), None),
            }
        };
        tr = r;
        if let Some(c) = c {
            pool.truncate(7);
            pool.push(c);
        }
    }
    if let Some(mock) = r {
        h.had_refs = true;
        h.refs.push(R { mock, tree: tr, key: ins.key });
    }
}

/// A panic in user code. While something is looked up, it changes nothing; while something is inserted, what is
/// left is unspecified: returns true.
fn faulty<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize>(g: &mut Rng, h: &mut H<I, MJ, P, M>) -> bool {
    if h.m.runs.is_empty() {
        return false;
    }
    let pos = I::dec(read_pos(I::DIM, &h.m, g.u32(), g.u32()));
    let k = g.below(5);
    let mask = match k {
        0..=2 => 1 << Cb::Cmp as u32 | 1 << Cb::Sub as u32,
        3 => 1 << Cb::Clone as u32,
        _ => 1 << Cb::Split as u32 | 1 << Cb::Join as u32 | 1 << Cb::Add as u32 | 1 << Cb::Sub as u32 | 1 << Cb::Cmp as u32,
    };
    begin_op();
    ctx().armed.push(Armed { mask, nth: g.below(7) as u32, thread: crate::sched::tid(), after: g.chance(1, 2) });
    let s = match k {
        4 => Some(Val::<MJ>::new(8, ORIGIN, gen_len(I::DIM, g.u32()))),
        _ => None,
    };
    let mut made = false;
    let r = sut(|| match k {
        0 => drop(h.mock.get(pos)),
        1 => drop(h.mock.iter((StartBound::Included(pos), EndBound::<I>::Unbounded)).count()),
        2 => {
            h.mock.make_ref(pos);
            made = true;
        }
        3 if !h.had_refs => drop(h.mock.clone()),
        3 => {}
        _ => {
            let s = s.unwrap();
            let n = I::dec(s.len);
            h.mock.insert(pos, s, n, false);
        }
    });
    ctx().armed.clear();
    h.had_refs |= made;
    match r {
        Err(Pan::Msg(m)) => violation(format!("the mock panicked, not user code: {m}")),
        Err(Pan::Inj) => stats().add("mock: panics in user code", 1),
        Ok(()) => {}
    }
    k == 4
}

/// One lookup, and one reference
fn look<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize>(g: &mut Rng, h: &H<I, MJ, P, M>) {
    same("size of the mock", ok("size", || h.mock.size()).enc(), h.m.size());
    if let Some(t) = &h.tree {
        same("size of the tree", ok("size", || t.size()).enc(), h.m.size());
    }
    let pos = read_pos(I::DIM, &h.m, g.u32(), g.u32());
    let (i, start, _) = h.m.find(pos);
    let want = entry(&h.m, i, start);
    let at = I::dec(pos);
    let got = ok("get of the mock", || {
        let (r, s) = h.mock.get(at);
        item("get of the mock", r, I::dec(h.m.runs[i].len), s)
    });
    same("an entry of the mock", got, want);
    if let Some(t) = &h.tree {
        let got = ok("get of the tree", || {
            let e = t.get(at);
            item("get of the tree", e.range(), e.size(), e.slice())
        });
        same("an entry of the tree", got, want);
    }
    if !h.refs.is_empty() {
        check_ref(h, &h.refs[g.below(h.refs.len() as u64) as usize]);
    }
}

fn entry(m: &Model, i: usize, start: Pos) -> Item {
    let r = &m.runs[i];
    (start, then(start, r.len), (r.tag, r.off, r.len))
}

fn check_ref<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize>(h: &H<I, MJ, P, M>, r: &R<P::Ref>) {
    let want = h.m.by_key(r.key).map(|(i, s)| entry(&h.m, i, s));
    let got = ok("a reference of the mock", || {
        let (a, n, s) = (h.mock.ref_range(&r.mock), h.mock.ref_size(&r.mock), h.mock.ref_slice(&r.mock));
        Some(item("a reference of the mock", a?, n?, s?))
    });
    same("what a reference of the mock refers to", got, want);
    if let Some(t) = &r.tree {
        let got = ok("a reference of the tree", || {
            let (a, b) = (t.range(), t.borrow_slice());
            Some(item("a reference of the tree", a.clone(), a.end.sub_left(a.start), &*b))
        });
        same("what a reference of the tree refers to", got, want);
    }
    stats().add("mock: references compared", 1);
}

fn make_ref<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize>(g: &mut Rng, h: &mut H<I, MJ, P, M>) {
    let pos = read_pos(I::DIM, &h.m, g.u32(), g.u32());
    let (i, _, _) = h.m.find(pos);
    let key = h.m.runs[i].key;
    let at = I::dec(pos);
    let mock = ok("make_ref of the mock", || h.mock.make_ref(at));
    let tree = h.tree.as_ref().and_then(|t| ok("make_ref of the tree", || P::make_ref(&t.get(at))));
    h.had_refs = true;
    let r = R { mock, tree, key };
    check_ref(h, &r);
    h.refs.push(r);
}

fn check<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize>(g: &mut Rng, h: &H<I, MJ, P, M>) {
    same("size of the mock", ok("size", || h.mock.size()).enc(), h.m.size());
    let want: Vec<Item> = h.m.starts().into_iter().enumerate().map(|(i, s)| entry(&h.m, i, s)).collect();
    let mut got = vec![];
    let mut it = ok("iter of the mock", || h.mock.iter(..));
    let back = g.chance(1, 2);
    while let Some((r, n, s)) = ok("iteration of the mock", || if back { it.next_back() } else { it.next() }) {
        got.push(item("iteration of the mock", r, n, s));
        if got.len() > want.len() {
            break;
        }
    }
    if back {
        got.reverse();
    }
    same("the contents of the mock", got, want);
    for r in &h.refs {
        check_ref(h, r);
    }
}

/// A bound: somewhere inside, or either end
fn bound<I: Ix>(g: &mut Rng, m: &Model) -> Pos {
    match g.below(8) {
        0 => m.size(),
        1 => ORIGIN,
        2 => then(m.size(), gen_len(I::DIM, g.u32())),
        _ if m.runs.is_empty() => ORIGIN,
        _ => read_pos(I::DIM, m, g.u32(), g.u32()),
    }
}

/// Entries of a range, valid or not, taken from both ends
fn iterate<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize>(g: &mut Rng, h: &H<I, MJ, P, M>) {
    let size = h.m.size();
    let (x, y) = (bound::<I>(g, &h.m), bound::<I>(g, &h.m));
    let (a, b) = (I::dec(x), I::dec(y));
    let (lo, hi) = match g.below(7) {
        0 => (StartBound::Unbounded, EndBound::Unbounded),
        1 => (StartBound::Included(a), EndBound::Unbounded),
        2 => (StartBound::Unbounded, EndBound::Excluded(b)),
        3 => (StartBound::Unbounded, EndBound::Included(b)),
        4 => (StartBound::Included(a), EndBound::Included(b)),
        _ => (StartBound::Included(a), EndBound::Excluded(b)),
    };
    // what the documentation of `RleTree::iter` says about ranges
    let from = if let StartBound::Included(_) = lo { x } else { ORIGIN };
    let wrong_start = matches!(lo, StartBound::Included(_)) && x >= size;
    let wrong_end = match hi {
        EndBound::Unbounded => false,
        EndBound::Included(_) => y >= size || y < from,
        // only ranges without a start may be empty
        EndBound::Excluded(_) => y > size || y < from || (y == from && matches!(lo, StartBound::Included(_))),
    };
    let range = || {
        let _f = SutFlag::set(false);
        AnyRange::Pair(lo, hi)
    };
    if wrong_start || wrong_end {
        refused("an invalid range for the mock", || h.mock.iter(range()).count());
        if let Some(t) = &h.tree {
            refused("an invalid range for the tree", || t.iter(range()).count());
        }
        stats().add("mock: ranges refused", 1);
        return;
    }
    let starts = h.m.starts();
    let (mut front, mut back) = (0, h.m.runs.len());
    while front < back && then(starts[front], h.m.runs[front].len) <= from {
        front += 1;
    }
    while front < back
        && match hi {
            EndBound::Unbounded => false,
            EndBound::Included(_) => starts[back - 1] > y,
            EndBound::Excluded(_) => starts[back - 1] >= y,
        }
    {
        back -= 1;
    }
    let mut im = ok("iter of the mock", || h.mock.iter(range()));
    let mut it = h.tree.as_ref().map(|t| ok("iter of the tree", || t.iter(range())));
    let reverse = g.below(5);
    for _ in 0..back - front + 2 {
        let fwd = g.below(4) >= reverse;
        let want = (front < back).then(|| if fwd { front } else { back - 1 }).map(|i| entry(&h.m, i, starts[i]));
        let got = ok("iteration of the mock", || {
            let x = if fwd { im.next() } else { im.next_back() };
            x.map(|(r, n, s)| item("iteration of the mock", r, n, s))
        });
        same("an item of the mock's iterator", got, want);
        if let Some(it) = &mut it {
            let got = ok("iteration of the tree", || {
                let x = if fwd { it.next() } else { it.next_back() };
                x.map(|e| item("iteration of the tree", e.range(), e.size(), e.slice()))
            });
            same("an item of the tree's iterator", got, want);
        }
        if front < back {
            if fwd {
                front += 1;
            } else {
                back -= 1;
            }
        }
    }
    stats().add("mock: iterations compared", 1);
}

/// Arguments that both refuse, and which must change nothing
fn reject<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize>(g: &mut Rng, h: &mut H<I, MJ, P, M>) {
    let size = h.m.size();
    let beyond = I::dec(then(size, gen_len(I::DIM, g.u32())));
    let one = gen_len(I::DIM, g.u32());
    let signed = std::any::TypeId::of::<I>() != std::any::TypeId::of::<usize>();
    // below zero, as far as the type has it
    let neg = if signed { I::dec(without_prefix(ORIGIN, one)) } else { beyond };
    let zero_or_less = if signed && g.chance(1, 2) { neg } else { I::ZERO };
    let s = || {
        let _f = SutFlag::set(false);
        Val::<MJ>::new(9, ORIGIN, one)
    };
    let out = if g.chance(1, 2) { beyond } else { neg };
    let make = g.chance(1, 2);
    let k = g.below(6);
    match k {
        0 => {
            refused("an insertion out of bounds by the mock", || h.mock.insert(beyond, s(), I::dec(one), make));
            if let Some(t) = &mut h.tree {
                refused("an insertion out of bounds by the tree", || t.insert(beyond, s(), I::dec(one)));
            }
        }
        1 => {
            let at = if h.m.runs.is_empty() { ORIGIN } else { read_pos(I::DIM, &h.m, g.u32(), g.u32()) };
            refused("an insertion of no size by the mock", || h.mock.insert(I::dec(at), s(), zero_or_less, make));
            if let Some(t) = &mut h.tree {
                refused("an insertion of no size by the tree", || t.insert(I::dec(at), s(), zero_or_less));
            }
        }
        2 => {
            let at = if g.chance(1, 3) { I::dec(size) } else { out };
            refused("a lookup out of bounds by the mock", || drop(h.mock.get(at)));
            if let Some(t) = &h.tree {
                refused("a lookup out of bounds by the tree", || drop(t.get(at)));
            }
        }
        3 => {
            let at = if g.chance(1, 3) { I::dec(size) } else { out };
            refused("a reference out of bounds by the mock", || h.mock.make_ref(at));
        }
        4 => {
            refused("a new mock of no size", || Mock::new(s(), zero_or_less));
            refused("a new tree of no size", || Tree::<I, MJ, P, M>::new(s(), zero_or_less));
        }
        _ => {
            let (lo, hi) = (StartBound::Included(neg), if g.chance(1, 2) { EndBound::Unbounded } else { EndBound::Excluded(I::dec(size)) });
            let range = || {
                let _f = SutFlag::set(false);
                AnyRange::Pair(lo, hi)
            };
            refused("a range that starts below zero, by the mock", || h.mock.iter(range()).count());
            if let Some(t) = &h.tree {
                refused("a range that starts below zero, by the tree", || t.iter(range()).count());
            }
        }
    }
    stats().add("mock: arguments refused", 1);
}

// ---------------------------------------------------------------- the fuzzing kit

/// Small numbers, so that most of what is decoded makes sense
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Small(i64);

impl std::ops::Add for Small {
    type Output = Small;
    fn add(self, o: Small) -> Small {
        Small(self.0 + o.0)
    }
}

impl std::ops::Sub for Small {
    type Output = Small;
    fn sub(self, o: Small) -> Small {
        Small(self.0 - o.0)
    }
}

impl sherman::Index for Small {
    const ZERO: Small = Small(0);
}

impl<'d> Arbitrary<'d> for Small {
    fn arbitrary(u: &mut Unstructured<'d>) -> arbitrary::Result<Self> {
        let x: u8 = u.arbitrary()?;
        Ok(Small(match x {
            0..=5 => 0,
            6..=120 => 1 + x as i64 % 3,
            121..=252 => 1 + x as i64 % 39,
            _ => x as i64 * 7 % 200,
        }))
    }
}

/// A slice that joins, but never with both neighbours (a finding on record): head and tail give a whole, nothing
/// else joins
#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    v: u8,
    part: u8,
}

impl Slice<Small> for Tok {
    const MAY_JOIN: bool = true;
    fn split_at(&mut self, _: Small) -> Tok {
        self.part = 2;
        self.clone()
    }
    fn try_join(self, o: Tok) -> Result<Tok, (Tok, Tok)> {
        if (self.part, o.part) == (0, 1) && self.v == o.v {
            return Ok(Tok { v: self.v, part: 2 });
        }
        Err((self, o))
    }
}

impl<'d> Arbitrary<'d> for Tok {
    fn arbitrary(u: &mut Unstructured<'d>) -> arbitrary::Result<Self> {
        let x: u8 = u.arbitrary()?;
        Ok(Tok { v: x / 3 % 3, part: x % 3 })
    }
}

pub struct Any;
impl Name for Any {
    fn name() -> &'static str {
        "Any"
    }
}

trait Kit: for<'d> sherman_fuzz_utils::ArbitraryCommand<'d, Index = Small, Slice = Tok> + std::fmt::Debug + Clone {
    fn execute<const M: usize>(cmds: &[Self]) -> usize;
}

macro_rules! kit {
    ($cmd:ident, $param:ty, $extra:ident, $run:ident) => {
        impl Kit for $cmd<Small, Tok> {
            fn execute<const M: usize>(cmds: &[Self]) -> usize {
                let mut r: RunnerState<Small, Tok, $param, M> = RunnerState::init();
                let x = ExtraRunnerInfo::$extra();
                for (i, c) in cmds.iter().enumerate() {
                    ctx().log(i as u64);
                    r.$run(c, &x);
                }
                cmds.len()
            }
        }
    };
}
kit!(BasicCommand, NoFeatures, new_basic, run_basic_cmd);
kit!(SliceRefCommand, AllowSliceRefs, new_slice_refs, run_slice_ref_cmd);
kit!(CowCommand, AllowCow, new_cow, run_cow_cmd);

fn decoded<C: Kit, const M: usize>(op: &Op) {
    let mut g = Rng::new(op.b as u64 | (op.d as u64) << 32);
    let n = op.c as usize % 600;
    let mut bytes: Vec<u8> = (0..n).map(|_| g.u32() as u8).collect();
    if n > 20 && g.chance(7, 8) {
        // an insertion that is possible, then two references, and rarely one dropped: there must be one whenever a
        // command needs one
        for b in &mut bytes {
            if *b % 10 == 9 && g.chance(3, 4) {
                *b = 2;
            }
        }
        bytes[..2].copy_from_slice(&[2, 0]);
        bytes[3..8].copy_from_slice(&[194, 3, 9, 3, 40]);
    }
    bytes.iter().for_each(|b| ctx().log(*b as u64));
    ctx().what = format!("{}, M={M}, decoded from the bytes of {op:?}", std::any::type_name::<C>());
    // the kit replaces the panic hook, and removes its own afterwards
    let cmds = own_hook(|| {
        let mut u = Unstructured::new(&bytes);
        CommandSequence::<Any, C>::arbitrary(&mut u)
    });
    match cmds {
        Err(m) => violation(format!("decoding commands panicked: {m}")),
        Ok(Err(_)) => stats().add("kit: byte strings that are no commands", 1),
        Ok(Ok(c)) => {
            if let Err(m) = own_hook(|| C::execute::<M>(&c.cmds)) {
                violation(format!("the kit's commands fail on the tree: {m}"));
            }
            stats().add("kit: commands run", c.cmds.len() as u64);
        }
    }
}

fn own_hook<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::set_hook(Box::new(|_| {}));
    // hooks cannot be replaced while unwinding
    crate::ctx::per().unwinding = false;
    let r = crate::ctx::catch(f);
    crate::driver::install();
    if let Some(e) = crate::alloc::take_error() {
        violation(e);
    }
    r.map_err(|p| match p.downcast::<String>() {
        Ok(s) => *s,
        Err(p) => p.downcast::<&str>().map_or("?".into(), |s| s.to_string()),
    })
}
