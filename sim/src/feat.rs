//! What the three feature sets of the tree offer, behind one trait.

use crate::types::{Cur, Ix, Val};
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures, RleTreeConfig, SupportsInsert};
use sherman::{Borrow, RleTree, SliceEntry, SliceRef};
use std::ops::Range;

pub type Tree<I, const MJ: bool, P, const M: usize> = RleTree<I, Val<MJ>, P, M>;
pub type Entry<'t, I, const MJ: bool, P, const M: usize> = SliceEntry<'t, I, Val<MJ>, P, M>;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Kind {
    Plain,
    Cow,
    Refs,
}

pub trait SRef<I: Ix, const MJ: bool>: 'static {
    fn dup(&self) -> Self;
    fn is_valid(&self) -> bool;
    fn can_borrow(&self) -> bool;
    fn range(&self) -> Range<I>;
    fn try_range(&self) -> Option<Range<I>>;
    fn cursor(&self) -> Cur;
    fn try_cursor(&self) -> Option<Cur>;
    fn borrow_slice(&self) -> Borrow<'_, Val<MJ>>;
    fn try_borrow_slice(&self) -> Option<Borrow<'_, Val<MJ>>>;
}

pub trait Feat<I: Ix, const MJ: bool, const M: usize>:
    RleTreeConfig<I, Val<MJ>, M> + SupportsInsert<I, Val<MJ>, M> + 'static
{
    const KIND: Kind;
    type Ref: SRef<I, MJ>;
    fn clone_tree(t: &Tree<I, MJ, Self, M>) -> Option<Tree<I, MJ, Self, M>>;
    fn entry_cursor(e: &Entry<I, MJ, Self, M>) -> Option<Cur>;
    fn make_ref(e: &Entry<I, MJ, Self, M>) -> Option<Self::Ref>;
    fn insert_ref(t: &mut Tree<I, MJ, Self, M>, c: Option<Cur>, i: I, s: Val<MJ>, z: I) -> (Option<Cur>, Option<Self::Ref>);
}

pub enum NoRef {}
impl<I: Ix, const MJ: bool> SRef<I, MJ> for NoRef {
    fn dup(&self) -> Self {
        match *self {}
    }
    fn is_valid(&self) -> bool {
        match *self {}
    }
    fn can_borrow(&self) -> bool {
        match *self {}
    }
    fn range(&self) -> Range<I> {
        match *self {}
    }
    fn try_range(&self) -> Option<Range<I>> {
        match *self {}
    }
    fn cursor(&self) -> Cur {
        match *self {}
    }
    fn try_cursor(&self) -> Option<Cur> {
        match *self {}
    }
    fn borrow_slice(&self) -> Borrow<'_, Val<MJ>> {
        match *self {}
    }
    fn try_borrow_slice(&self) -> Option<Borrow<'_, Val<MJ>>> {
        match *self {}
    }
}

impl<I: Ix, const MJ: bool, const M: usize> SRef<I, MJ> for SliceRef<I, Val<MJ>, M> {
    fn dup(&self) -> Self {
        self.clone()
    }
    fn is_valid(&self) -> bool {
        SliceRef::is_valid(self)
    }
    fn can_borrow(&self) -> bool {
        SliceRef::can_borrow(self)
    }
    fn range(&self) -> Range<I> {
        SliceRef::range(self)
    }
    fn try_range(&self) -> Option<Range<I>> {
        SliceRef::try_range(self)
    }
    fn cursor(&self) -> Cur {
        SliceRef::cursor(self)
    }
    fn try_cursor(&self) -> Option<Cur> {
        SliceRef::try_cursor(self)
    }
    fn borrow_slice(&self) -> Borrow<'_, Val<MJ>> {
        SliceRef::borrow_slice(self)
    }
    fn try_borrow_slice(&self) -> Option<Borrow<'_, Val<MJ>>> {
        SliceRef::try_borrow_slice(self)
    }
}

fn plain_insert<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize>(
    t: &mut Tree<I, MJ, P, M>,
    c: Option<Cur>,
    i: I,
    s: Val<MJ>,
    z: I,
) -> Option<Cur> {
    match c {
        None => {
            t.insert(i, s, z);
            None
        }
        Some(c) => Some(t.insert_with_cursor(c, i, s, z)),
    }
}

impl<I: Ix, const MJ: bool, const M: usize> Feat<I, MJ, M> for NoFeatures {
    const KIND: Kind = Kind::Plain;
    type Ref = NoRef;
    fn clone_tree(t: &Tree<I, MJ, Self, M>) -> Option<Tree<I, MJ, Self, M>> {
        Some(t.clone())
    }
    fn entry_cursor(e: &Entry<I, MJ, Self, M>) -> Option<Cur> {
        Some(e.cursor())
    }
    fn make_ref(_: &Entry<I, MJ, Self, M>) -> Option<Self::Ref> {
        None
    }
    fn insert_ref(t: &mut Tree<I, MJ, Self, M>, c: Option<Cur>, i: I, s: Val<MJ>, z: I) -> (Option<Cur>, Option<Self::Ref>) {
        (plain_insert(t, c, i, s, z), None)
    }
}

impl<I: Ix, const MJ: bool, const M: usize> Feat<I, MJ, M> for AllowCow {
    const KIND: Kind = Kind::Cow;
    type Ref = NoRef;
    fn clone_tree(t: &Tree<I, MJ, Self, M>) -> Option<Tree<I, MJ, Self, M>> {
        Some(t.clone())
    }
    fn entry_cursor(_: &Entry<I, MJ, Self, M>) -> Option<Cur> {
        None
    }
    fn make_ref(_: &Entry<I, MJ, Self, M>) -> Option<Self::Ref> {
        None
    }
    fn insert_ref(t: &mut Tree<I, MJ, Self, M>, c: Option<Cur>, i: I, s: Val<MJ>, z: I) -> (Option<Cur>, Option<Self::Ref>) {
        (plain_insert(t, c, i, s, z), None)
    }
}

impl<I: Ix, const MJ: bool, const M: usize> Feat<I, MJ, M> for AllowSliceRefs {
    const KIND: Kind = Kind::Refs;
    type Ref = SliceRef<I, Val<MJ>, M>;
    fn clone_tree(_: &Tree<I, MJ, Self, M>) -> Option<Tree<I, MJ, Self, M>> {
        None
    }
    fn entry_cursor(e: &Entry<I, MJ, Self, M>) -> Option<Cur> {
        Some(e.cursor())
    }
    fn make_ref(e: &Entry<I, MJ, Self, M>) -> Option<Self::Ref> {
        Some(e.make_ref())
    }
    fn insert_ref(t: &mut Tree<I, MJ, Self, M>, c: Option<Cur>, i: I, s: Val<MJ>, z: I) -> (Option<Cur>, Option<Self::Ref>) {
        match c {
            None => (None, Some(t.insert_ref(i, s, z))),
            Some(c) => {
                let (c, r) = t.insert_ref_with_cursor(c, i, s, z);
                (Some(c), Some(r))
            }
        }
    }
}
