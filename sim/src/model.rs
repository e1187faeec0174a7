//! The reference model: a tree is the plain sequence of its runs.

use crate::ctx::Piece;
use crate::types::{joins, then, without_prefix, Pos, ORIGIN};

#[derive(Clone, Debug, PartialEq)]
pub struct Run {
    pub len: Pos,
    pub tag: u32,
    pub off: Pos,
    /// identity followed by slice references
    pub key: u64,
}

impl Run {
    pub fn piece(&self) -> Piece {
        (self.tag, self.off, self.len)
    }
}

#[derive(Clone, Debug)]
pub struct Model {
    pub runs: Vec<Run>,
    pub mj: bool,
    pub pol: u8,
}

/// What an insertion must do
#[derive(Debug)]
pub struct Ins {
    /// index of the run holding the inserted slice
    pub at: usize,
    pub key: u64,
    pub splits: u64,
    /// joins it may attempt, trying the left neighbour first / the right neighbour first
    pub pairs: [Vec<(Piece, Piece, bool)>; 2],
    /// both neighbours (different runs before the insertion) merge with it: (kept key, lost key)
    pub double: Option<(u64, u64)>,
}

impl Model {
    pub fn new(mj: bool, pol: u8) -> Model {
        Model { runs: vec![], mj, pol }
    }

    pub fn size(&self) -> Pos {
        self.runs.iter().fold(ORIGIN, |p, r| then(p, r.len))
    }

    /// Where each run starts
    pub fn starts(&self) -> Vec<Pos> {
        let mut p = ORIGIN;
        let mut next = |l| {
            let s = p;
            p = then(p, l);
            s
        };
        self.runs.iter().map(|r| next(r.len)).collect()
    }

    pub fn start_of(&self, i: usize) -> Pos {
        self.runs[..i].iter().fold(ORIGIN, |p, r| then(p, r.len))
    }

    /// (run index, its start, offset in it) for a position inside the tree
    pub fn find(&self, pos: Pos) -> (usize, Pos, Pos) {
        let mut p = ORIGIN;
        for (i, r) in self.runs.iter().enumerate() {
            let e = then(p, r.len);
            if pos < e {
                return (i, p, without_prefix(pos, p));
            }
            p = e;
        }
        (self.runs.len(), p, ORIGIN)
    }

    pub fn by_key(&self, key: u64) -> Option<(usize, Pos)> {
        let mut p = ORIGIN;
        for (i, r) in self.runs.iter().enumerate() {
            if r.key == key {
                return Some((i, p));
            }
            p = then(p, r.len);
        }
        None
    }

    fn joins(&self, l: &Run, r: &Run) -> bool {
        self.mj && joins(self.pol, l.piece(), r.piece())
    }

    pub fn merged(&self, l: &Run, r: &Run) -> Run {
        Run { len: then(l.len, r.len), tag: l.tag, off: l.off, key: l.key }
    }

    pub fn insert(&mut self, pos: Pos, tag: u32, off: Pos, len: Pos, fresh: &mut u64) -> Ins {
        let mut key = || {
            *fresh += 1;
            *fresh
        };
        let s = Run { len, tag, off, key: key() };
        let (i, _, within) = self.find(pos);
        let (left, right, at, splits);
        if within == ORIGIN {
            left = if i > 0 { Some(self.runs[i - 1].clone()) } else { None };
            right = self.runs.get(i).cloned();
            at = i;
            splits = 0;
            let a = if left.is_some() { i - 1 } else { i };
            let b = if right.is_some() { i + 1 } else { i };
            self.runs.drain(a..b);
        } else {
            let r = self.runs.remove(i);
            let l = Run { len: within, ..r.clone() };
            let roff = if self.mj && self.pol == 1 { ORIGIN } else { then(r.off, within) };
            let rr = Run { len: without_prefix(r.len, within), tag: r.tag, off: roff, key: key() };
            left = Some(l);
            right = Some(rr);
            at = i + 1;
            splits = 1;
        }
        let jl = left.as_ref().map_or(false, |l| self.joins(l, &s));
        let jr = right.as_ref().map_or(false, |r| self.joins(&s, r));
        let mut pairs = [vec![], vec![]];
        if self.mj {
            let mid = if jl { self.merged(left.as_ref().unwrap(), &s) } else { s.clone() };
            if let Some(l) = &left {
                pairs[0].push((l.piece(), s.piece(), jl));
            }
            if let Some(r) = &right {
                pairs[0].push((mid.piece(), r.piece(), self.joins(&mid, r)));
            }
            let mid = if jr { self.merged(&s, right.as_ref().unwrap()) } else { s.clone() };
            if let Some(r) = &right {
                pairs[1].push((s.piece(), r.piece(), jr));
            }
            if let Some(l) = &left {
                pairs[1].push((l.piece(), mid.piece(), self.joins(l, &mid)));
            }
        }
        let mut out = Ins { at, key: s.key, splits, pairs, double: None };
        let mut ins: Vec<Run> = vec![];
        let put = at - left.is_some() as usize;
        match (jl, jr) {
            (false, false) => {
                ins.extend(left.clone());
                ins.push(s);
                ins.extend(right.clone());
                out.at = put + left.is_some() as usize;
            }
            (true, false) => {
                let m = self.merged(left.as_ref().unwrap(), &s);
                out.key = m.key;
                ins.push(m);
                ins.extend(right.clone());
                out.at = put;
            }
            (false, true) => {
                let r = right.as_ref().unwrap();
                let mut m = self.merged(&s, r);
                // existing references to the neighbour follow it into the merged slice; a piece split off
                // just now has none
                if splits == 0 {
                    m.key = r.key;
                    out.key = r.key;
                }
                ins.extend(left.clone());
                ins.push(m);
                out.at = put + left.is_some() as usize;
            }
            (true, true) => {
                let (l, r) = (left.as_ref().unwrap(), right.as_ref().unwrap());
                let m = self.merged(&self.merged(l, &s), r);
                out.key = m.key;
                if splits == 0 {
                    out.double = Some((l.key, r.key));
                }
                ins.push(m);
                out.at = put;
            }
        }
        self.runs.splice(put..put, ins);
        out
    }
}

impl Model {
    /// Whether an insertion would merge with both of two slices that are already in the tree
    pub fn would_double(&self, pos: Pos, tag: u32, off: Pos, len: Pos) -> bool {
        let (i, _, within) = self.find(pos);
        if within != ORIGIN || i == 0 || i >= self.runs.len() {
            return false;
        }
        let s = Run { len, tag, off, key: 0 };
        let (l, r) = (&self.runs[i - 1], &self.runs[i]);
        // whichever neighbour is tried first
        (self.joins(l, &s) && self.joins(&self.merged(l, &s), r)) || (self.joins(&s, r) && self.joins(l, &self.merged(&s, r)))
    }
}
