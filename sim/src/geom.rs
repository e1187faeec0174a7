//! Sizes, positions and hints drawn from operation arguments.

use crate::model::Model;
use crate::rng::Rng;
use crate::types::{then, Cur, Pos, ORIGIN};
use sherman::PathComponent;

/// A positive size
pub fn gen_len(dim: u8, r: u32) -> Pos {
    let mut g = Rng::new(r as u64 ^ 0x5EED);
    if dim == 1 {
        return match g.below(8) {
            0 => [1, 0, 0, 0],
            1 => [2, 0, 0, 0],
            2 => [g.range(1, 100_000) as i64, 0, 0, 0],
            _ => [g.range(1, 9) as i64, 0, 0, 0],
        };
    }
    let sgn = |g: &mut Rng| g.below(9) as i64 - 3;
    match g.below(5) {
        0 => [0, 0, 0, g.range(1, 5) as i64],
        1 => [0, 0, g.range(1, 4) as i64, sgn(&mut g)],
        2 => [0, g.range(1, 4) as i64, sgn(&mut g), sgn(&mut g)],
        _ => [g.range(1, 3) as i64, sgn(&mut g), sgn(&mut g), sgn(&mut g)],
    }
}

/// A position strictly between zero and `len`
pub fn gen_inside(dim: u8, len: Pos, r: u32) -> Option<Pos> {
    let mut g = Rng::new(r as u64 ^ 0x1A51DE);
    if dim == 1 {
        if len[0] < 2 {
            return None;
        }
        return Some([match g.below(4) {
            0 => 1,
            1 => len[0] - 1,
            _ => 1 + g.below(len[0] as u64 - 1) as i64,
        }, 0, 0, 0]);
    }
    for _ in 0..8 {
        // equal to the end in some leading components, below it in the next
        let mut i = ORIGIN;
        let mut tight = true;
        for k in 0..4 {
            i[k] = match (tight, k) {
                (true, 0) => len[0] - g.below(len[0] as u64 + 1) as i64,
                (true, 3) => len[3] - 1 - g.below(3) as i64,
                (true, _) => len[k] - g.below(3) as i64,
                (false, _) => g.below(9 + 2 * k as u64) as i64 - 2 - k as i64,
            };
            tight &= i[k] == len[k];
        }
        if i > ORIGIN && i < len {
            return Some(i);
        }
    }
    None
}

/// A position at which something may be inserted
pub fn insert_pos(dim: u8, m: &Model, a: u32, b: u32, last: Pos) -> Pos {
    let n = m.runs.len() as u32;
    if n == 0 {
        return ORIGIN;
    }
    if b >> 29 == 7 && last > ORIGIN && last <= m.size() {
        return last;
    }
    if b >> 29 == 6 {
        return m.size();
    }
    let r = a % (n + 1);
    if r == n {
        return m.size();
    }
    let start = m.start_of(r as usize);
    if b & 1 == 0 {
        return start;
    }
    gen_inside(dim, m.runs[r as usize].len, b >> 1).map_or(start, |i| then(start, i))
}

/// A position inside the tree (which must not be empty)
pub fn read_pos(dim: u8, m: &Model, a: u32, b: u32) -> Pos {
    let r = (a as usize) % m.runs.len();
    let start = m.start_of(r);
    if b & 1 == 0 {
        return start;
    }
    gen_inside(dim, m.runs[r].len, b >> 1).map_or(start, |i| then(start, i))
}

/// The component naming child `i`. Its field is private and there is no constructor: it is an unsigned integer
/// of whatever width.
pub fn pc(i: u8) -> PathComponent {
    let n = std::mem::size_of::<PathComponent>();
    assert!(n >= 1 && n <= 8, "harness: PathComponent is not an integer");
    let b = (i as u64).to_le_bytes();
    let mut c = std::mem::MaybeUninit::<PathComponent>::zeroed();
    // SAFETY: at most eight bytes, and an integer is valid with any bytes
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), c.as_mut_ptr() as *mut u8, n);
        c.assume_init()
    }
}

pub fn pc_val(c: PathComponent) -> u8 {
    let n = std::mem::size_of::<PathComponent>();
    assert!(n >= 1 && n <= 8, "harness: PathComponent is not an integer");
    let mut b = [0u8; 8];
    // SAFETY: at most eight bytes
    unsafe { std::ptr::copy_nonoverlapping(&c as *const _ as *const u8, b.as_mut_ptr(), n) };
    u64::from_le_bytes(b).min(255) as u8
}

pub fn path_vals(c: &Cur) -> Vec<u8> {
    c.path.iter().map(|c| pc_val(*c)).collect()
}

/// A hint made up from `d`, possibly from cursors obtained earlier; `None`: no hint at all
pub fn hint(d: u32, pool: &[Cur], m: usize) -> Option<Cur> {
    let mut g = Rng::new(d as u64 ^ 0x41A7);
    match d & 7 {
        0..=2 => None,
        3 | 7 => Some(if pool.is_empty() { Cur::default() } else { g.pick(pool).clone() }),
        4 => {
            let n = g.below(7);
            Some(Cur {
                path: (0..n)
                    .map(|_| pc(if g.chance(1, 12) { g.below(256) as u8 } else { g.below(2 * m as u64 + 2) as u8 }))
                    .collect(),
                ..Cur::default()
            })
        }
        5 => {
            let n = g.range(1, 3);
            Some(Cur {
                path: (0..n).map(|_| pc(g.below(2 * m as u64 + 2) as u8)).collect(),
                endless: true,
                ..Cur::default()
            })
        }
        _ => {
            let mut c = if pool.is_empty() { Cur::default() } else { g.pick(pool).clone() };
            match g.below(3) {
                0 => c.path.truncate(g.below(3) as usize),
                1 => c.path.push(pc(g.below(4) as u8)),
                _ => {
                    if let Some(x) = c.path.last_mut() {
                        *x = pc(g.below(2 * m as u64 + 1) as u8);
                    }
                }
            }
            c.endless = g.chance(1, 4);
            Some(c)
        }
    }
}

/// Depth a tree of `n` slices can have at most: every node but the root has at least `m` slices
pub fn max_depth(n: usize, m: usize) -> usize {
    let mut d = 1;
    // fewest slices in a tree of depth d+1: 2 (m+1)^d - 1
    let mut p = m + 1;
    while 2 * p - 1 <= n {
        d += 1;
        p = p.saturating_mul(m + 1);
    }
    d
}
