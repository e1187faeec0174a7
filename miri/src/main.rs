//! Workloads run under Miri's seeded scheduler. One Miri seed decides everything: the scheduling, the weak-memory
//! behaviours and, through `RandomState`, the workload (unless `--w` fixes it).

mod cow;
mod hist;

use std::collections::hash_map::RandomState;
use std::hash::{BuildHasher, Hasher};

pub struct Rng(u64);

impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
}

pub fn mix(x: u64) -> u64 {
    Rng(x).u64()
}

pub struct Args {
    pub w: u64,
    /// at most so many threads
    pub threads: usize,
    /// at most so many operations before the threads start, and per thread
    pub init: usize,
    pub cap: usize,
}

fn main() {
    let mut a = Args { w: 0, threads: 4, init: 99, cap: 99 };
    let mut mode = String::from("cow");
    let mut fixed = false;
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let v = it.next().expect("value");
        match k.as_str() {
            "--mode" => mode = v,
            "--w" => {
                a.w = v.parse().expect("number");
                fixed = true;
            }
            "--threads" => a.threads = v.parse().expect("number"),
            "--init" => a.init = v.parse().expect("number"),
            "--cap" => a.cap = v.parse().expect("number"),
            _ => panic!("unknown argument"),
        }
    }
    if !fixed {
        a.w = RandomState::new().build_hasher().finish();
    }
    // one write, so that lines of concurrently interpreted seeds do not mix
    let w = a.w;
    emit(format!("W {w}\n"));
    let (hash, ops) = match mode.as_str() {
        "cow" => cow::run(&a),
        m => hist::run(&a, m),
    };
    emit(format!("D {w} {hash:016x} {ops}\n"));
}

pub fn emit(s: String) {
    use std::io::Write;
    let _ = std::io::stdout().write_all(s.as_bytes());
}
