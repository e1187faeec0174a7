//! Clone-on-write handles used from several threads.

use crate::{mix, Args, Rng};
use sherman::param::AllowCow;
use sherman::{RleTree, Slice};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{mpsc, Arc, Mutex};

/// A slice whose every part is plain memory, some of it on the heap
#[derive(Debug)]
pub struct Val<const J: bool> {
    pub tag: u32,
    pub off: Box<usize>,
    pub len: usize,
}

impl<const J: bool> Val<J> {
    fn sum(&self) -> u64 {
        mix(self.tag as u64) ^ mix(*self.off as u64 + 77) ^ mix(self.len as u64 + 99)
    }
}

impl<const J: bool> Clone for Val<J> {
    fn clone(&self) -> Self {
        Val { tag: self.tag, off: Box::new(*self.off), len: self.len }
    }
}

impl<const J: bool> Drop for Val<J> {
    fn drop(&mut self) {
        // a destructor that reads and writes its value
        self.len = self.len.wrapping_add(*self.off) ^ 0xDEAD;
    }
}

impl<const J: bool> Slice<usize> for Val<J> {
    const MAY_JOIN: bool = J;
    fn split_at(&mut self, idx: usize) -> Self {
        assert!(idx > 0 && idx < self.len, "split at {idx} of {}", self.len);
        let r = Val { tag: self.tag, off: Box::new(*self.off + idx), len: self.len - idx };
        self.len = idx;
        r
    }
    fn try_join(mut self, other: Self) -> Result<Self, (Self, Self)> {
        if J && self.tag == other.tag && *self.off + self.len == *other.off {
            self.len += other.len;
            Ok(self)
        } else {
            Err((self, other))
        }
    }
}

/// Runs as (tag, offset, length)
pub type Model = Vec<(u32, usize, usize)>;

pub fn size(m: &Model) -> usize {
    m.iter().map(|r| r.2).sum()
}

pub fn m_insert(m: &mut Model, pos: usize, v: (u32, usize, usize), join: bool) {
    let mut p = 0;
    let mut i = 0;
    while i < m.len() && p + m[i].2 <= pos {
        p += m[i].2;
        i += 1;
    }
    if i < m.len() && p < pos {
        let (t, o, l) = m[i];
        let k = pos - p;
        m[i] = (t, o, k);
        m.insert(i + 1, (t, o + k, l - k));
        i += 1;
    }
    m.insert(i, v);
    if join {
        for k in [i + 1, i] {
            if k > 0 && k < m.len() && m[k - 1].0 == m[k].0 && m[k - 1].1 + m[k - 1].2 == m[k].1 {
                m[k - 1].2 += m[k].2;
                m.remove(k);
            }
        }
    }
}

/// Would the insertion at `pos` merge with both neighbours? (a finding on record: not implemented)
fn double(m: &Model, pos: usize, v: (u32, usize, usize)) -> bool {
    let mut p = 0;
    for k in 0..m.len() {
        if p == pos {
            return k > 0
                && m[k - 1].0 == v.0
                && m[k - 1].1 + m[k - 1].2 == v.1
                && m[k].0 == v.0
                && v.1 + v.2 == m[k].1;
        }
        p += m[k].2;
    }
    false
}

type Tree<const J: bool, const M: usize> = RleTree<usize, Val<J>, AllowCow, M>;

struct Handle<const J: bool, const M: usize> {
    t: Tree<J, M>,
    m: Model,
}

impl<const J: bool, const M: usize> Handle<J, M> {
    fn new() -> Self {
        Handle { t: RleTree::new_empty(), m: vec![] }
    }
    fn dup(&self) -> Self {
        Handle { t: self.t.clone(), m: self.m.clone() }
    }
    fn check(&self) {
        assert_eq!(self.t.size(), size(&self.m), "size");
        assert_eq!(self.t.number_of_slices(), self.m.len(), "number of slices");
        let mut p = 0;
        let mut k = 0;
        if !self.m.is_empty() {
            for e in self.t.iter(..) {
                let v = e.slice();
                assert_eq!((v.tag, *v.off, v.len), self.m[k], "contents of slice {k}");
                assert_eq!(e.range(), p..p + v.len, "range of slice {k}");
                p += v.len;
                k += 1;
            }
        }
        assert_eq!(k, self.m.len(), "slices iterated");
    }
    fn insert(&mut self, g: &mut Rng, tags: &mut u32) {
        let n = size(&self.m);
        let pos = match g.below(4) {
            0 => n,
            1 => 0,
            2 if !self.m.is_empty() => {
                let k = g.below(self.m.len());
                self.m[..k].iter().map(|r| r.2).sum()
            }
            _ => g.below(n + 1),
        };
        let len = 1 + g.below(4);
        *tags += 1;
        let mut v = (*tags, 5, len);
        if J && g.chance(1, 3) {
            // something that continues or precedes a neighbour
            let mut p = 0;
            for r in &self.m {
                if p + r.2 == pos && g.chance(1, 2) {
                    v = (r.0, r.1 + r.2, len);
                } else if p == pos && r.1 > len && g.chance(1, 2) {
                    v = (r.0, r.1 - len, len);
                }
                p += r.2;
            }
            if double(&self.m, pos, v) {
                v = (*tags, 5, len);
            }
        }
        self.t.insert(pos, Val { tag: v.0, off: Box::new(v.1), len }, len);
        m_insert(&mut self.m, pos, v, J);
    }
    fn get(&self, g: &mut Rng) -> u64 {
        if self.m.is_empty() {
            return 0;
        }
        let x = g.below(size(&self.m));
        let e = self.t.get(x);
        assert!(e.range().contains(&x), "range of a looked-up slice");
        let mut p = 0;
        for r in &self.m {
            if x < p + r.2 {
                assert_eq!((e.slice().tag, *e.slice().off, e.slice().len), *r, "looked-up slice");
                break;
            }
            p += r.2;
        }
        e.slice().sum()
    }
    fn back(&self, g: &mut Rng) {
        if self.m.is_empty() {
            return;
        }
        let n = size(&self.m);
        let a = g.below(n);
        let b = a + 1 + g.below(n - a);
        let mut it = self.t.iter(a..b);
        let mut got: Vec<u64> = vec![];
        let mut rear: Vec<u64> = vec![];
        loop {
            let f = g.chance(1, 2);
            let x = if f { it.next() } else { it.next_back() };
            let Some(e) = x else { break };
            if f { got.push(e.slice().sum()) } else { rear.push(e.slice().sum()) }
        }
        rear.reverse();
        got.extend(rear);
        let mut want = vec![];
        let mut p = 0;
        for r in &self.m {
            if p < b && p + r.2 > a {
                want.push(mix(r.0 as u64) ^ mix(r.1 as u64 + 77) ^ mix(r.2 as u64 + 99));
            }
            p += r.2;
        }
        assert_eq!(got, want, "slices of a range");
    }
    fn cursor(&self, g: &mut Rng) {
        if !self.m.is_empty() {
            let x = g.below(size(&self.m));
            let c: sherman::BoundedCursor = self.t.cursor_to(x);
            let e = self.t.get_with_cursor(c, x);
            assert!(e.range().contains(&x), "range of a slice looked up with a hint");
        }
    }
}

static TICKET: AtomicUsize = AtomicUsize::new(0);

pub fn run(a: &Args) -> (u64, usize) {
    match a.w % 4 {
        0 | 1 => go::<true, 1>(a),
        2 => go::<false, 1>(a),
        _ => go::<true, 2>(a),
    }
}

fn go<const J: bool, const M: usize>(a: &Args) -> (u64, usize) {
    let mut g = Rng::new(a.w);
    let mut tags = 0;
    let mut h = Handle::<J, M>::new();
    let init = [2, 5, 9, 14][g.below(4)];
    for _ in 0..init.min(a.init) {
        h.insert(&mut g, &mut tags);
    }
    let mut extra = vec![];
    for _ in 0..g.below(3) {
        let mut d = h.dup();
        for _ in 0..g.below(3) {
            d.insert(&mut g, &mut tags);
        }
        extra.push(d);
    }
    let threads = (2 + g.below(3)).min(a.threads);
    let shared = g.chance(1, 2).then(|| Arc::new(h.dup()));
    let mail: Arc<Mutex<Option<Handle<J, M>>>> = Arc::new(Mutex::new(None));
    let (tx, rx) = mpsc::channel::<Handle<J, M>>();
    let mut js = vec![];
    let mut main_keeps = vec![];
    for t in 0..threads {
        let mut hs = vec![if g.chance(1, 4) && !extra.is_empty() { extra.pop().unwrap() } else { h.dup() }];
        if g.chance(1, 4) {
            hs.push(h.dup());
        }
        let (shared, mail, tx) = (shared.clone(), mail.clone(), tx.clone());
        let most = [3, 5, 8][g.below(3)];
        let n = (1 + g.below(most)).min(a.cap);
        let mut g = Rng::new(g.u64());
        js.push(std::thread::spawn(move || {
            let mut tags = 1000 * (t as u32 + 1);
            let mut log = vec![];
            for _ in 0..n {
                log.push(TICKET.fetch_add(1, Relaxed));
                let k = g.below(hs.len().max(1));
                match g.below(16) {
                    0..=5 if !hs.is_empty() => hs[k].insert(&mut g, &mut tags),
                    6 | 7 if !hs.is_empty() => {
                        let d = hs[k].dup();
                        hs.push(d);
                    }
                    8 | 9 if !hs.is_empty() => drop(hs.swap_remove(k)),
                    10 if !hs.is_empty() => drop(hs[k].get(&mut g)),
                    11 if !hs.is_empty() => hs[k].back(&mut g),
                    12 if !hs.is_empty() => hs[k].cursor(&mut g),
                    13 => {
                        // trade with another thread
                        let give = if hs.is_empty() { None } else { Some(hs.swap_remove(k)) };
                        let got = std::mem::replace(&mut *mail.lock().unwrap(), give);
                        hs.extend(got);
                    }
                    14 => {
                        if let Some(s) = &shared {
                            if g.chance(1, 2) {
                                hs.push(s.dup());
                            } else {
                                s.get(&mut g);
                            }
                        }
                    }
                    _ => {
                        if let Some(h) = hs.get(k) {
                            h.check();
                        }
                    }
                }
            }
            log.push(TICKET.fetch_add(1, Relaxed));
            for h in &hs {
                h.check();
            }
            if g.chance(1, 4) {
                for h in hs {
                    let _ = tx.send(h);
                }
            }
            log
        }));
    }
    drop(tx);
    // main is one of the threads, too
    match g.below(4) {
        0 => drop(h),
        1 => {
            h.insert(&mut g, &mut tags);
            main_keeps.push(h);
        }
        2 => {
            h.check();
            main_keeps.push(h);
        }
        _ => main_keeps.push(h),
    }
    drop(extra);
    drop(shared);
    let (mut hash, mut ops) = (a.w, 0);
    for (t, j) in js.into_iter().enumerate() {
        for x in j.join().expect("a thread panicked") {
            hash = mix(hash ^ ((t as u64) << 32 | x as u64));
            ops += 1;
        }
    }
    for h in rx.try_iter().chain(main_keeps).chain(mail.lock().unwrap().take()) {
        h.check();
    }
    (hash, ops)
}
