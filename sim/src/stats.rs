//! Counters of a worker process, reported as evidence. Touched only by the thread holding the baton.

use crate::spec::K;
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Stats {
    pub sum: BTreeMap<String, u64>,
    pub max: BTreeMap<String, u64>,
    pub ops: BTreeMap<K, u64>,
    pub hashes: HashSet<u64>,
}

static mut STATS: Option<Stats> = None;

#[allow(static_mut_refs)]
pub fn stats() -> &'static mut Stats {
    unsafe { STATS.get_or_insert_with(Stats::default) }
}

impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        let _f = crate::alloc::SutFlag::set(false);
        match self.sum.get_mut(k) {
            Some(x) => *x += n,
            None => {
                self.sum.insert(k.to_string(), n);
            }
        }
    }

    pub fn max(&mut self, k: &str, n: u64) {
        let _f = crate::alloc::SutFlag::set(false);
        match self.max.get_mut(k) {
            Some(x) => *x = n.max(*x),
            None => {
                self.max.insert(k.to_string(), n);
            }
        }
    }

    pub fn op(&mut self, k: K) {
        *self.ops.entry(k).or_insert(0) += 1;
    }
}
