//! A run, written out: everything that decides an execution.

use crate::sched::{Policy, Stall};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    New,
    Insert,
    InsertRef,
    /// several insertions next to each other
    Burst,
    Get,
    CursorTo,
    Iter,
    /// step an iterator while another handle sharing the storage is changed
    IterWhile,
    Clone,
    Drop,
    /// documented rejections
    Reject,
    /// paths of all slices, obtained in every way
    Paths,
    Serde,
    /// insertion merging with both neighbours
    DoubleJoin,
    Drain,
    /// create a drain and drop it without a step
    DrainDrop,
    MakeRef,
    RefRead,
    RefClone,
    RefDrop,
    Borrow,
    BorrowClone,
    BorrowRead,
    BorrowDrop,
    /// exchange a handle with a mailbox shared by all threads
    Mail,
    SharedRead,
    SharedClone,
    SharedDrop,
    Check,
    /// many insertions next to each other, to get a big tree
    Bulk,
    /// a history of a tree of `Constant`s with a primitive index
    Constant,
    /// hundreds of handles, references or borrows at once
    Many,
    /// a history of trees of misbehaving user types
    Liar,
    /// a history of the reference implementation for fuzzing, or of the fuzzing kit
    Mock,
}

/// A fault armed for one operation: the `n`-th callback whose kind is in mask `m` panics
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Flt {
    pub m: u32,
    pub n: u32,
    #[serde(default)]
    pub after: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Op {
    pub k: K,
    #[serde(default)]
    pub h: u8,
    #[serde(default)]
    pub a: u32,
    #[serde(default)]
    pub b: u32,
    #[serde(default)]
    pub c: u32,
    #[serde(default)]
    pub d: u32,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub f: Vec<Flt>,
    /// user code re-enters through references in callbacks, with this seed
    #[serde(default, skip_serializing_if = "is0")]
    pub re: u32,
    /// the operation is done by a destructor, while the thread unwinds because of another panic
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub un: bool,
}

fn is0(x: &u32) -> bool {
    *x == 0
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Spec {
    pub prop: String,
    /// instantiation: index type, feature, MAY_JOIN, M
    pub world: usize,
    pub policy: u8,
    pub yield_cb: u8,
    /// full comparison every so many operations
    pub every: u32,
    /// also keep a plain tree with the same history next to every handle
    #[serde(default)]
    pub twin: bool,
    /// check cost bounds
    #[serde(default)]
    pub cost: bool,
    /// operations of the single thread, or before the threads start
    pub init: Vec<Op>,
    #[serde(default)]
    pub threads: Vec<Vec<Op>>,
    #[serde(default)]
    pub shared: bool,
    #[serde(default)]
    pub sched: Option<Policy>,
    #[serde(default)]
    pub stalls: Vec<Stall>,
    /// order in which everything is dropped at the end
    #[serde(default)]
    pub end: u32,
    /// executed by the build without debug assertions and overflow checks, as the crate ships
    #[serde(default)]
    pub rel: bool,
}
