//! Serialisation through simulated streams.

use crate::alloc::SutFlag;
use crate::ctx::{begin_op, ctx, violation, Armed, Cb};
use crate::feat::{Feat, Tree};
use crate::model::Model;
use crate::rng::Rng;
use crate::sched;
use crate::spec::Op;
use crate::stats::stats;
use crate::types::{Ix, Pos, ORIGIN};
use crate::world::{ok, sut, Pan, World};
use serde::de::{DeserializeSeed, Deserializer, SeqAccess, Visitor};
use std::io::{self, Read, Write};

/// A writer that takes a few bytes at a time and may fail
struct W {
    buf: Vec<u8>,
    g: Rng,
    fail_at: Option<usize>,
    full: bool,
}

impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let _f = SutFlag::set(false);
        if self.g.chance(1, 6) {
            stats().add("fault: write interrupted", 1);
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(1 + self.g.below(9) as usize);
        if let Some(f) = self.fail_at {
            if self.buf.len() >= f {
                if self.full {
                    stats().add("fault: device full (write of 0 bytes)", 1);
                    return Ok(0);
                }
                stats().add("fault: write error", 1);
                return Err(io::Error::new(io::ErrorKind::Other, "simulated write error"));
            }
            n = n.min(f - self.buf.len());
        }
        if n < b.len() {
            stats().add("fault: short write", 1);
        }
        self.buf.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A reader that hands out a few bytes at a time and may fail
struct R<'a> {
    b: &'a [u8],
    at: usize,
    g: Rng,
    fail_at: Option<usize>,
}

impl Read for R<'_> {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let _f = SutFlag::set(false);
        if self.g.chance(1, 10) {
            stats().add("fault: read interrupted", 1);
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = out.len().min(1 + self.g.below(9) as usize).min(self.b.len() - self.at);
        if let Some(f) = self.fail_at {
            if self.at >= f {
                stats().add("fault: read error", 1);
                return Err(io::Error::new(io::ErrorKind::Other, "simulated read error"));
            }
            n = n.min(f - self.at);
        }
        out[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

/// A self-describing source that yields prepared elements, with any size hint
struct Tok {
    items: Vec<serde_json::Value>,
    at: usize,
    fail_at: Option<usize>,
    hint: Option<usize>,
}

impl<'de> Deserializer<'de> for Tok {
    type Error = serde_json::Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        v.visit_seq(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

impl<'de> SeqAccess<'de> for Tok {
    type Error = serde_json::Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Self::Error> {
        if self.fail_at == Some(self.at) {
            stats().add("fault: element error", 1);
            return Err(serde::de::Error::custom("simulated element error"));
        }
        if self.at >= self.items.len() {
            return Ok(None);
        }
        self.at += 1;
        let x = {
            let _f = SutFlag::set(false);
            self.items[self.at - 1].clone()
        };
        seed.deserialize(x).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}

type Item = (Pos, (u32, Pos, Pos));

/// What the bytes must mean: the appended runs, or nothing if they are malformed
fn reference<I: Ix>(bytes: &[u8]) -> Option<Vec<Item>> {
    let v: Vec<(I, (u32, Pos, Pos))> = serde_json::from_slice(bytes).ok()?;
    let v: Vec<Item> = v.into_iter().map(|(i, x)| (i.enc(), x)).collect();
    if v.iter().any(|x| x.0 <= ORIGIN) {
        return None;
    }
    Some(v)
}

/// Values so large that adding them up would overflow are no business of this check
fn too_large(bytes: &[u8]) -> bool {
    let mut run = 0;
    bytes.iter().any(|b| {
        run = if b.is_ascii_digit() { run + 1 } else { 0 };
        run > 8 || *b == b'e' || *b == b'E' || *b == b'.'
    })
}

pub fn serde_op<I: Ix, const MJ: bool, P: Feat<I, MJ, M>, const M: usize>(
    w: &mut World<I, MJ, P, M>,
    hi: usize,
    op: &Op,
) {
    let mut g = Rng::new(op.a as u64 ^ (op.b as u64) << 32);
    let what = "serialisation";
    let m = w.hs[hi].as_ref().unwrap().m.clone();
    let live = ctx().live;
    let me = sched::tid();
    let arm = |mask: u32| {
        for f in &op.f {
            ctx().armed.push(Armed { mask: f.m & mask, nth: f.n, thread: me, after: false });
        }
    };
    let disarm = || ctx().armed.retain(|a| a.thread != me);
    // to a stream
    let clean = {
        let t = &w.hs[hi].as_ref().unwrap().t;
        let clean = ok(what, || serde_json::to_vec(t));
        let clean = match clean {
            Ok(c) => c,
            Err(e) => violation(format!("serialising failed: {e}")),
        };
        let want: Vec<serde_json::Value> = m
            .runs
            .iter()
            .map(|r| serde_json::json!([serde_json::to_value(I::dec(r.len)).unwrap(), [r.tag, r.off, r.len]]))
            .collect();
        match serde_json::from_slice::<serde_json::Value>(&clean) {
            Ok(serde_json::Value::Array(v)) if v == want => {}
            x => violation(format!("serialised form is {x:?}, expected {want:?}")),
        }
        let fail_at = if g.chance(1, 3) { Some(g.below(clean.len() as u64 + 2) as usize) } else { None };
        let mut wr = W { buf: Vec::with_capacity(clean.len()), g: Rng::new(g.u64()), fail_at, full: g.chance(1, 2) };
        begin_op();
        arm(1 << Cb::Ser as u32 | 1 << Cb::Add as u32 | 1 << Cb::Sub as u32 | 1 << Cb::Cmp as u32);
        let r = sut(|| serde_json::to_writer(&mut wr, t));
        disarm();
        let fails = fail_at.map_or(false, |f| f < clean.len());
        match r {
            Ok(Ok(())) if fails => violation("a failed write was not reported"),
            Ok(Ok(())) => {
                if wr.buf != clean {
                    violation("what was written depends on the chunking of the stream");
                }
            }
            Ok(Err(_)) if fails => {}
            Ok(Err(e)) => violation(format!("serialising to a working stream failed: {e}")),
            Err(Pan::Inj) => {}
            Err(Pan::Msg(e)) => violation(format!("serialising panicked: {e}")),
        }
        clean
    };
    {
        let h = w.hs[hi].as_ref().unwrap();
        World::<I, MJ, P, M>::check_full("serialised tree", &h.t, &h.m, false);
    }
    // damage
    let mut bytes = clean.clone();
    let mode = g.below(10);
    match mode {
        0 | 1 => {}
        2 => {
            bytes.truncate(g.below(bytes.len() as u64 + 1) as usize);
            stats().add("fault: stream truncated", 1);
        }
        3 | 4 => {
            for _ in 0..g.range(1, 3) {
                let k = g.below(bytes.len() as u64) as usize;
                bytes[k] = match g.below(4) {
                    0 => bytes[k] ^ 1 << g.below(8),
                    1 => b'0' + g.below(10) as u8,
                    2 => *g.pick(b"[],-0 {}\"n"),
                    _ => g.u64() as u8,
                };
                stats().add("fault: byte damaged", 1);
            }
        }
        5 | 6 => {
            // well-formed JSON, one element wrong
            if let Ok(serde_json::Value::Array(mut v)) = serde_json::from_slice(&bytes) {
                if !v.is_empty() {
                    let k = g.below(v.len() as u64) as usize;
                    let bad: Pos = if I::DIM == 1 { [*g.pick(&[0, 0, -1, -7]), 0, 0, 0] } else { *g.pick(&[ORIGIN, [0, 0, 0, -1], [-1, 5, 5, 5], [0, -2, 9, 9], [0, 0, -1, 3]]) };
                    match g.below(6) {
                        0..=2 => {
                            v[k][0] = match I::NAME {
                                "usize" => serde_json::json!(bad[0]),
                                _ => serde_json::to_value(I::dec(bad)).unwrap(),
                            };
                            stats().add("fault: non-positive size in the stream", 1);
                        }
                        3 => v[k] = serde_json::json!([v[k][0]]),
                        4 => v[k] = serde_json::json!([v[k][0], v[k][1], 1]),
                        _ => v[k] = serde_json::Value::Null,
                    }
                    bytes = serde_json::to_vec(&v).unwrap();
                    stats().add("fault: malformed element", 1);
                }
            }
        }
        7 => {
            // elements cut out or repeated
            if let Ok(serde_json::Value::Array(mut v)) = serde_json::from_slice(&bytes) {
                if !v.is_empty() {
                    let k = g.below(v.len() as u64) as usize;
                    if g.chance(1, 2) {
                        v.remove(k);
                    } else {
                        let x = v[k].clone();
                        v.insert(k, x);
                    }
                    bytes = serde_json::to_vec(&v).unwrap();
                }
            }
        }
        8 => bytes.extend_from_slice(*g.pick(&[&b" "[..], b"]", b"1", b"\n\n", b"[]"])),
        _ => {}
    }
    if too_large(&bytes) && !too_large(&clean) {
        return;
    }
    // from a stream
    let mut exp = reference::<I>(&bytes);
    if exp.iter().flatten().any(|(size, (_, _, len))| size != len) {
        // damage to the content of a slice, which the tree has no part in
        return;
    }
    begin_op();
    let fmask = 1 << Cb::De as u32
        | 1 << Cb::Add as u32
        | 1 << Cb::Sub as u32
        | 1 << Cb::Cmp as u32
        | 1 << Cb::Join as u32
        | 1 << Cb::Drop as u32;
    let r: Result<Result<Tree<I, MJ, P, M>, serde_json::Error>, Pan>;
    let fail_at = if g.chance(1, 4) { Some(g.below(bytes.len() as u64 + 1) as usize) } else { None };
    if mode != 9 {
        let mut rd = R { b: &bytes, at: 0, g: Rng::new(g.u64()), fail_at };
        if fail_at.map_or(false, |_| true) {
            // a failing stream is an error wherever it fails, even after the last byte
            exp = None;
        }
        arm(fmask);
        r = sut(|| serde_json::from_reader(&mut rd));
        disarm();
    } else {
        let items: Vec<serde_json::Value> = serde_json::from_slice(&bytes).unwrap();
        let fail_at = if g.chance(1, 2) { Some(g.below(items.len() as u64 + 1) as usize) } else { None };
        if fail_at.is_some() {
            exp = None;
        }
        let hint = *g.pick(&[None, Some(0), Some(items.len()), Some(3), Some(usize::MAX)]);
        if hint.map_or(false, |h| h != items.len()) {
            stats().add("fault: wrong size hint", 1);
        }
        let tok = Tok { items, at: 0, fail_at, hint };
        arm(fmask);
        r = sut(|| serde::Deserialize::deserialize(tok));
        disarm();
    }
    let shown = String::from_utf8_lossy(&bytes).into_owned();
    match (r, exp) {
        (Err(Pan::Inj), _) => {
            if ctx().fired[Cb::Drop as usize] == 0 && ctx().live != live {
                violation(format!("deserialisation that panicked left {} slices behind", ctx().live - live));
            }
        }
        (Err(Pan::Msg(e)), _) => violation(format!("deserialising {shown} panicked: {e}")),
        (Ok(Ok(_)), None) => violation(format!("deserialising malformed or failing {shown} gave a tree")),
        (Ok(Err(e)), Some(_)) => violation(format!("deserialising {shown} failed: {e}")),
        (Ok(Err(_)), None) => {
            if ctx().live != live {
                violation(format!("failed deserialisation of {shown} left {} slices behind", ctx().live - live));
            }
            stats().add("streams rejected", 1);
        }
        (Ok(Ok(t)), Some(v)) => {
            let mut m = Model::new(MJ, w.pol);
            let mut k = 1 << 50;
            for (len, (tag, off, _)) in v {
                let at = m.size();
                m.insert(at, tag, off, len, &mut k);
            }
            stats().add("streams accepted", 1);
            w.adopt(t, m);
        }
    }
    let h = w.hs[hi].as_ref().unwrap();
    World::<I, MJ, P, M>::check_full("serialised tree", &h.t, &h.m, false);
}
