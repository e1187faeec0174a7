//! Instrumented user types: slices, indexes and cursors handed to the crate under test.

use crate::alloc::SutFlag;
use crate::ctx::{callback, ctx, inject, slot, violation, Cb, St};
use sherman::{Cursor, Index, PathComponent, Slice};
use std::cmp::Ordering;
use std::ops::{Add, Sub};

// ---------------------------------------------------------------- positions

/// Positions and sizes of the reference model: elements of an ordered, non-commutative group in lexicographic
/// order, of which the ordinary integers are the subgroup `[n, 0, 0, 0]`. The first component moves the other
/// three by powers of one unipotent matrix. The group is nilpotent of class three, so that not only does the order
/// of two terms matter but also where a difference of two sizes is taken.
pub type Pos = [i64; 4];
pub const ORIGIN: Pos = [0, 0, 0, 0];

/// `v`, moved by `k`
fn moved(v: [i64; 3], k: i64) -> [i64; 3] {
    [v[0], v[1] + k * v[0], v[2] + k * v[1] + k * (k - 1) / 2 * v[0]]
}

fn rest(x: Pos) -> [i64; 3] {
    [x[1], x[2], x[3]]
}

/// `x` followed by `y`
pub fn then(x: Pos, y: Pos) -> Pos {
    let v = moved(rest(x), y[0]);
    [x[0] + y[0], v[0] + y[1], v[1] + y[2], v[2] + y[3]]
}

/// `r` with `l` followed by `r` equal to `x`
pub fn without_prefix(x: Pos, l: Pos) -> Pos {
    let k = x[0] - l[0];
    let v = moved(rest(l), k);
    [k, x[1] - v[0], x[2] - v[1], x[3] - v[2]]
}

/// `l` with `l` followed by `r` equal to `x`
pub fn without_suffix(x: Pos, r: Pos) -> Pos {
    let v = moved([x[1] - r[1], x[2] - r[2], x[3] - r[3]], -r[0]);
    [x[0] - r[0], v[0], v[1], v[2]]
}

/// Index types the tree is instantiated with
pub trait Ix: Index + Send + Sync + 'static + serde::Serialize + for<'a> serde::Deserialize<'a> {
    const DIM: u8;
    const NAME: &'static str;
    fn enc(self) -> Pos;
    fn dec(p: Pos) -> Self;
}

impl Ix for usize {
    const DIM: u8 = 1;
    const NAME: &'static str = "usize";
    fn enc(self) -> Pos {
        [self as i64, 0, 0, 0]
    }
    fn dec(p: Pos) -> Self {
        p[0] as usize
    }
}

/// Instrumented one-dimensional index
#[derive(Copy, Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Ix1(pub i64);

/// Instrumented directional index
#[derive(Copy, Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Ix4(pub Pos);

macro_rules! cmp_impls {
    ($t:ty) => {
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                self.cmp(o) == Ordering::Equal
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering {
                let _f = SutFlag::set(false);
                callback(Cb::Cmp);
                self.0.cmp(&o.0)
            }
        }
    };
}
cmp_impls!(Ix1);
cmp_impls!(Ix4);

/// An unsigned index could not have subtracted `y` from `x`
fn below(x: Pos, y: Pos, r: Pos) {
    if r < ORIGIN && x >= ORIGIN && y >= ORIGIN && ctx().signs {
        violation(format!("index arithmetic goes below zero: {y:?} taken from {x:?}"));
    }
}

impl Add for Ix1 {
    type Output = Ix1;
    fn add(self, o: Ix1) -> Ix1 {
        let _f = SutFlag::set(false);
        callback(Cb::Add);
        Ix1(self.0 + o.0)
    }
}

impl Sub for Ix1 {
    type Output = Ix1;
    fn sub(self, o: Ix1) -> Ix1 {
        let _f = SutFlag::set(false);
        callback(Cb::Sub);
        let r = self.0 - o.0;
        below(self.enc(), o.enc(), [r, 0, 0, 0]);
        Ix1(r)
    }
}

impl Index for Ix1 {
    const ZERO: Ix1 = Ix1(0);
}

impl Ix for Ix1 {
    const DIM: u8 = 1;
    const NAME: &'static str = "Ix1";
    fn enc(self) -> Pos {
        [self.0, 0, 0, 0]
    }
    fn dec(p: Pos) -> Self {
        Ix1(p[0])
    }
}

impl sherman::DirectionalAdd for Ix4 {
    fn add_right(self, right: Ix4) -> Ix4 {
        let _f = SutFlag::set(false);
        callback(Cb::Add);
        Ix4(then(self.0, right.0))
    }
}

impl sherman::DirectionalSub for Ix4 {
    fn sub_left(self, left: Ix4) -> Ix4 {
        let _f = SutFlag::set(false);
        callback(Cb::Sub);
        let r = without_prefix(self.0, left.0);
        below(self.0, left.0, r);
        Ix4(r)
    }
    fn sub_right(self, right: Ix4) -> Ix4 {
        let _f = SutFlag::set(false);
        callback(Cb::Sub);
        let r = without_suffix(self.0, right.0);
        below(self.0, right.0, r);
        Ix4(r)
    }
}

impl Index for Ix4 {
    const ZERO: Ix4 = Ix4(ORIGIN);
}

impl Ix for Ix4 {
    const DIM: u8 = 4;
    const NAME: &'static str = "Ix4";
    fn enc(self) -> Pos {
        self.0
    }
    fn dec(p: Pos) -> Self {
        Ix4(p)
    }
}

// ---------------------------------------------------------------- slices

const MAGIC: u64 = 0x5AFE_51CE_0000_0000;

/// Instrumented slice. `MJ` is its `MAY_JOIN`; with it, `ctx().join_policy` decides what joins:
/// 1 = equal tags, 2 = contiguous pieces of the same source, 3 = never
pub struct Val<const MJ: bool> {
    pub id: u32,
    pub tag: u32,
    pub off: Pos,
    pub len: Pos,
    canary: u64,
}

impl<const MJ: bool> Val<MJ> {
    pub fn new(tag: u32, off: Pos, len: Pos) -> Self {
        let id = ctx().new_val(tag, off, len);
        Val { id, tag, off, len, canary: MAGIC | id as u64 }
    }

    /// Checks that this memory holds a live slice with the contents it was given
    pub fn check(&self, what: &str) {
        let c = ctx();
        if self.canary != MAGIC | self.id as u64 || self.id as usize >= c.vals.len() {
            violation(format!("{what}: memory does not hold a slice (released or never initialised)"));
        }
        let m = &c.vals[self.id as usize];
        if m.st != St::Live {
            violation(format!("{what}: slice #{} was already destroyed", self.id));
        }
        if (m.tag, m.off, m.len) != (self.tag, self.off, self.len) {
            violation(format!("{what}: slice #{} has torn contents", self.id));
        }
    }

    fn retire(&self) {
        let c = ctx();
        c.vals[self.id as usize].st = St::Dead;
        c.live -= 1;
    }
}

impl<const MJ: bool> Drop for Val<MJ> {
    fn drop(&mut self) {
        let _f = SutFlag::set(false);
        self.check("drop");
        ctx().log(0xD0 ^ (self.id as u64) << 8);
        self.retire();
        callback(Cb::Drop);
    }
}

impl<const MJ: bool> Clone for Val<MJ> {
    fn clone(&self) -> Self {
        let _f = SutFlag::set(false);
        self.check("clone");
        let before = (self.id, self.tag, self.off, self.len);
        ctx().per[slot()].clones.push(self.id);
        callback(Cb::Clone);
        self.check("clone (end)");
        if before != (self.id, self.tag, self.off, self.len) {
            violation(format!("slice #{} changed while it was being cloned", before.0));
        }
        let v = Val::new(before.1, before.2, before.3);
        ctx().log(0xC1 ^ (before.0 as u64) << 8 ^ (v.id as u64) << 40);
        v
    }
}

pub fn joins(policy: u8, l: (u32, Pos, Pos), r: (u32, Pos, Pos)) -> bool {
    match policy {
        1 => l.0 == r.0,
        2 => l.0 == r.0 && then(l.1, l.2) == r.1,
        _ => false,
    }
}

impl<I: Ix, const MJ: bool> Slice<I> for Val<MJ> {
    const MAY_JOIN: bool = MJ;

    fn split_at(&mut self, idx: I) -> Self {
        let _f = SutFlag::set(false);
        let i = idx.enc();
        self.check("split");
        if !(i > ORIGIN && i < self.len) {
            if ctx().per[slot()].tolerant {
                // an earlier panic left positions and slices in disagreement; like most user code would, panic
                inject(Cb::Split);
            }
            violation(format!("split of slice #{} requested at {:?}, not inside its length {:?}", self.id, i, self.len));
        }
        let after = callback(Cb::Split);
        let right_len = without_prefix(self.len, i);
        let right_off = if ctx().join_policy == 1 && MJ { ORIGIN } else { then(self.off, i) };
        self.len = i;
        ctx().vals[self.id as usize].len = i;
        let r = Val::new(self.tag, right_off, right_len);
        let c = ctx();
        c.per[slot()].splits += 1;
        c.log(0x51 ^ (self.id as u64) << 8 ^ (r.id as u64) << 40);
        if after {
            drop(r);
            inject(Cb::Split);
        }
        r
    }

    fn try_join(self, other: Self) -> Result<Self, (Self, Self)> {
        let _f = SutFlag::set(false);
        if !MJ {
            violation("try_join called although the slice type may not join");
        }
        self.check("join (left)");
        other.check("join (right)");
        callback(Cb::Join);
        let c = ctx();
        let (l, r) = ((self.tag, self.off, self.len), (other.tag, other.off, other.len));
        let ok = joins(c.join_policy, l, r);
        c.per[slot()].joins.push((l, r, ok));
        if ok {
            let v = Val::new(self.tag, self.off, then(self.len, other.len));
            self.retire();
            other.retire();
            c.log(0x30 ^ (self.id as u64) << 8 ^ (other.id as u64) << 40);
            std::mem::forget(self);
            std::mem::forget(other);
            Ok(v)
        } else {
            Err((self, other))
        }
    }
}

impl<const MJ: bool> serde::Serialize for Val<MJ> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let _f = SutFlag::set(false);
        self.check("serialize");
        callback(Cb::Ser);
        (self.tag, self.off, self.len).serialize(s)
    }
}

impl<'de, const MJ: bool> serde::Deserialize<'de> for Val<MJ> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let _f = SutFlag::set(false);
        let (tag, off, len) = <(u32, Pos, Pos)>::deserialize(d)?;
        callback(Cb::De);
        Ok(Val::new(tag, off, len))
    }
}

// ---------------------------------------------------------------- cursors

/// What a hint replays
#[derive(Clone, Debug, Default)]
pub struct Cur {
    /// path from the top, as prepended by the crate
    pub path: Vec<PathComponent>,
    /// repeat the path endlessly
    pub endless: bool,
    pub prepends: u32,
}

pub struct CurIter {
    path: Vec<PathComponent>,
    at: usize,
    endless: bool,
}

impl Cursor for Cur {
    fn new_empty() -> Self {
        let _f = SutFlag::set(false);
        callback(Cb::CurNew);
        Cur::default()
    }

    fn prepend_to_path(&mut self, c: PathComponent) {
        let _f = SutFlag::set(false);
        callback(Cb::CurPrepend);
        self.path.insert(0, c);
        self.prepends += 1;
        if self.prepends > 100_000 {
            crate::ctx::fatal("endless path: more than 100000 components prepended to one cursor");
        }
    }

    type PathIter = CurIter;

    fn into_path(self) -> CurIter {
        let _f = SutFlag::set(false);
        callback(Cb::CurPath);
        CurIter { path: self.path, at: 0, endless: self.endless }
    }
}

impl Iterator for CurIter {
    type Item = PathComponent;
    fn next(&mut self) -> Option<PathComponent> {
        let _f = SutFlag::set(false);
        callback(Cb::CurNext);
        let n = self.path.len();
        if self.at < n || (self.endless && n > 0) {
            let c = self.path[self.at % n];
            self.at += 1;
            Some(c)
        } else {
            None
        }
    }
}
