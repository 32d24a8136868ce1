//! C08: input and output streams as cursors.

use oct::decode::Input;
use oct::encode::Output;
use std::borrow::Borrow;
use vh::bfs::{merged, tree, Sys};
use vh::cx::*;
use vh::{bad, ensure};

const PAD: usize = 32;

/// A buffer within canaries, whose address stays the same.
struct Arena { all: *mut [u8], cap: usize, fill: u8 }
impl Arena {
    fn new(cap: usize, fill: u8, f: impl Fn(usize) -> u8) -> Self {
        let mut v = vec![fill; cap + 2 * PAD];
        for i in 0..cap { v[PAD + i] = f(i) }
        Arena { all: Box::into_raw(v.into_boxed_slice()), cap, fill }
    }
    fn base(&self) -> *mut u8 { unsafe { (self.all as *mut u8).add(PAD) } }
    /// Reads past every reference, as the last thing done with the object.
    fn canaries(&self) -> bool {
        let p = self.all as *const u8;
        (0..PAD).all(|i| unsafe { p.add(i).read() == self.fill && p.add(PAD + self.cap + i).read() == self.fill })
    }
    fn byte(&self, i: usize) -> u8 { unsafe { self.base().add(i).read() } }
}
impl Drop for Arena { fn drop(&mut self) { unsafe { drop(Box::from_raw(self.all)) } } }

fn huge(cap: usize) -> Vec<usize> {
    let m = usize::MAX;
    vec![m, m - 1, m / 2, m / 2 + 1, m - cap, (m - cap).wrapping_add(1), m - cap - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + cap, 1 << 16, (1 << 16) + cap, 256 + cap, 1 << 63, (1 << 63) + 1]
}

// ---- Input ----

struct In { cap: usize, sizes: Vec<usize> }
struct InReal { inp: Input<'static>, arena: Arena, given: Vec<(&'static [u8], usize)> }
#[derive(Clone, Debug, PartialEq)]
enum InOp { Read(usize), Into(usize), Empty, U16, Bool }

fn pat(i: usize) -> u8 { (i.wrapping_mul(37) ^ (i >> 8)) as u8 ^ 0x5b }

impl Sys for In {
    type Real = InReal;
    type Model = usize;
    type Op = InOp;
    fn start(&self) -> (InReal, usize) {
        let arena = Arena::new(self.cap, 0xc3, pat);
        let inp = Input::new(unsafe { std::slice::from_raw_parts(arena.base(), self.cap) });
        (InReal { inp, arena, given: vec![] }, 0)
    }
    fn ops(&self, pos: &usize) -> Vec<InOp> {
        let mut v = Vec::new();
        for n in &self.sizes { v.push(InOp::Read(*n)); v.push(InOp::Into(*n)) }
        for n in huge(self.cap).into_iter().chain(huge(*pos)) { v.push(InOp::Read(n)) }
        v.push(InOp::Empty);
        v.push(InOp::U16);
        v.push(InOp::Bool);
        v
    }
    fn step(&self, r: &mut InReal, pos: &mut usize, op: &InOp) -> Result<&'static str, Bad> {
        let (cap, p) = (self.cap, *pos);
        let fail = |e: oct::error::InputError, n: usize| -> Result<(), Bad> {
            ensure!(n > cap - p, "Input: refuses what remains", "{n} of {} at {p}", cap - p);
            ensure!((e.capacity, e.position, e.count) == (cap, p, n), "Input: error", "{:?} instead of {:?}", (e.capacity, e.position, e.count), (cap, p, n));
            Ok(())
        };
        match *op {
            InOp::Read(n) => match r.inp.read(n) {
                Ok(s) => {
                    ensure!(n <= cap - p, "Input: reads beyond the end", "{n} of {} at {p}", cap - p);
                    ensure!(s.len() == n, "Input: length of what was read", "{} instead of {n}", s.len());
                    ensure!(s.iter().enumerate().all(|(i, b)| *b == pat(p + i)), "Input: bytes", "read {s:?} at {p}");
                    r.given.push((s, p));
                    *pos += n;
                    Ok("read")
                }
                Err(e) => { fail(e, n)?; Ok("refused") }
            },
            InOp::Into(n) => {
                let mut dst = vec![0x99u8; n + 16];
                let x = r.inp.read_into(&mut dst[8..8 + n]);
                ensure!(dst[..8].iter().chain(&dst[8 + n..]).all(|b| *b == 0x99), "Input: read_into writes outside", "");
                match x {
                    Ok(()) => {
                        ensure!(n <= cap - p, "Input: reads beyond the end", "{n} of {} at {p}", cap - p);
                        ensure!(dst[8..8 + n].iter().enumerate().all(|(i, b)| *b == pat(p + i)), "Input: bytes", "read {:?} at {p}", &dst[8..8 + n]);
                        *pos += n;
                        Ok("read")
                    }
                    Err(e) => {
                        fail(e, n)?;
                        ensure!(dst.iter().all(|b| *b == 0x99), "Input: failed read_into changes the destination", "{dst:?}");
                        Ok("refused")
                    }
                }
            }
            InOp::Empty => { ensure!(r.inp.read(0).is_ok_and(|s| s.is_empty()) && r.inp.read_into(&mut []).is_ok(), "Input: empty read refused", ""); Ok("read") }
            // What fails by panicking must not have moved the cursor either.
            InOp::U16 => match guard(|| <u16 as oct::decode::Decode>::decode(&mut r.inp)) {
                Ok(Ok(v)) => {
                    ensure!(cap - p >= 2, "Input: reads beyond the end", "u16 at {p}");
                    ensure!(v == u16::from_le_bytes([pat(p), pat(p + 1)]), "Input: bytes", "{v:#x} at {p}");
                    *pos += 2;
                    Ok("decoded")
                }
                _ => { ensure!(cap - p < 2, "Input: refuses what remains", "u16 at {p}"); Ok("panicked") }
            },
            InOp::Bool => match guard(|| <bool as oct::decode::Decode>::decode(&mut r.inp)) {
                Ok(Ok(v)) => {
                    ensure!(cap - p >= 1, "Input: reads beyond the end", "bool at {p}");
                    ensure!(v == (pat(p) != 0), "Input: bytes", "{v} at {p}");
                    *pos += 1;
                    Ok("decoded")
                }
                _ => { ensure!(cap == p, "Input: refuses what remains", "bool at {p}"); Ok("panicked") }
            },
        }
    }
    fn observe(&self, r: &mut InReal, pos: &usize) -> Result<(), Bad> {
        let i = &r.inp;
        ensure!((i.capacity(), i.position(), i.remaining()) == (self.cap, *pos, self.cap - pos), "Input: capacity, position and remaining", "{:?} instead of {:?}", (i.capacity(), i.position(), i.remaining()), (self.cap, *pos, self.cap - pos));
        for (s, p) in &r.given { ensure!(s.iter().enumerate().all(|(i, b)| *b == pat(p + i)), "Input: what was read has changed", "{s:?}") }
        ensure!(r.arena.canaries() && (0..self.cap.min(64)).all(|i| r.arena.byte(i) == pat(i)), "Input: memory written", "");
        Ok(())
    }
}

// ---- Output ----

struct Out { cap: usize, sizes: Vec<usize>, fill: u8 }
struct OutReal { out: Output<'static>, arena: Arena }
#[derive(Clone, Debug)]
enum OutOp { Write(usize, u8), U16(u16), Str(&'static str) }

impl Sys for Out {
    type Real = OutReal;
    type Model = (Vec<u8>,);
    type Op = OutOp;
    fn start(&self) -> (OutReal, (Vec<u8>,)) {
        let arena = Arena::new(self.cap, 0x3c, |_| self.fill);
        let out = Output::new(unsafe { std::slice::from_raw_parts_mut(arena.base(), self.cap) });
        (OutReal { out, arena }, (vec![],))
    }
    fn ops(&self, m: &(Vec<u8>,)) -> Vec<OutOp> {
        let mut v = Vec::new();
        for n in &self.sizes { v.push(OutOp::Write(*n, 0x10)); if self.cap <= 4 { v.push(OutOp::Write(*n, 0xe0)) } }
        v.push(OutOp::U16(0x1234));
        // Only where it fits or not even its count does: what a failing
        // encoding leaves behind is its own affair.
        let rem = self.cap - m.0.len();
        for s in ["", "xy"] { if rem >= 2 + s.len() || rem < 2 { v.push(OutOp::Str(s)) } }
        v
    }
    fn step(&self, r: &mut OutReal, m: &mut (Vec<u8>,), op: &OutOp) -> Result<&'static str, Bad> {
        use oct::encode::Encode;
        let (cap, p) = (self.cap, m.0.len());
        match *op {
            OutOp::Write(n, salt) => {
                let data: Vec<u8> = (0..n).map(|i| salt ^ (i as u8).wrapping_mul(3) ^ (p as u8) ^ (i >> 8) as u8).collect();
                match r.out.write(&data) {
                    Ok(()) => {
                        ensure!(n <= cap - p, "Output: writes beyond the end", "{n} of {} at {p}", cap - p);
                        m.0.extend(&data);
                        Ok("written")
                    }
                    Err(e) => {
                        ensure!(n > cap - p, "Output: refuses what remains", "{n} of {} at {p}", cap - p);
                        ensure!((e.capacity, e.position, e.count) == (cap, p, n), "Output: error", "{:?} instead of {:?}", (e.capacity, e.position, e.count), (cap, p, n));
                        Ok("refused")
                    }
                }
            }
            OutOp::U16(v) => match guard(|| v.encode(&mut r.out)) {
                Ok(_) => { ensure!(cap - p >= 2, "Output: writes beyond the end", "u16 at {p}"); m.0.extend(v.to_le_bytes()); Ok("encoded") }
                Err(_) => { ensure!(cap - p < 2, "Output: refuses what remains", "u16 at {p}"); Ok("panicked") }
            },
            OutOp::Str(s) => match guard(|| s.encode(&mut r.out)) {
                Ok(Ok(())) => { ensure!(cap - p >= 2 + s.len(), "Output: writes beyond the end", "str at {p}"); m.0.extend((s.len() as u16).to_le_bytes()); m.0.extend(s.as_bytes()); Ok("encoded") }
                Ok(Err(_)) => bad!("Output: str refused", "{s:?}"),
                Err(_) => { ensure!(cap - p < 2 + s.len(), "Output: refuses what remains", "str at {p}"); Ok("panicked") }
            },
        }
    }
    fn observe(&self, r: &mut OutReal, m: &(Vec<u8>,)) -> Result<(), Bad> {
        let (o, w) = (&r.out, &m.0[..]);
        ensure!((o.capacity(), o.position(), o.remaining()) == (self.cap, w.len(), self.cap - w.len()), "Output: capacity, position and remaining", "{:?} instead of {:?}", (o.capacity(), o.position(), o.remaining()), (self.cap, w.len(), self.cap - w.len()));
        ensure!(o.as_slice() == w, "Output: as_slice", "{:?} instead of {w:?}", o.as_slice());
        ensure!(AsRef::<[u8]>::as_ref(o) == w && Borrow::<[u8]>::borrow(o) == w, "Output: borrowed views", "");
        ensure!(*o == *w && *o == w && *o == &mut w.to_vec()[..], "Output: comparison", "");
        ensure!(o.as_ptr() as usize == r.arena.base() as usize, "Output: address", "");
        // Only what was written has changed.
        ensure!((0..self.cap).all(|i| r.arena.byte(i) == if i < w.len() { w[i] } else { self.fill }), "Output: buffer", "after writing {w:?}");
        ensure!(r.arena.canaries(), "Output: writes outside", "");
        Ok(())
    }
}

fn main() {
    run(|| {
        let mut s = Vec::new();
        for cap in 0..=12usize {
            s.push(section(format!("input: capacity {cap}, all states"), move |cx| merged(cx, &In { cap, sizes: (0..=cap + 2).collect() }, 99, 1 << 20)));
            s.push(section(format!("output: capacity {cap}, all states"), move |cx| {
                let cap = if cx.thorough { cap } else { cap.min(9) };
                merged(cx, &Out { cap, sizes: (0..=cap + 2).collect(), fill: 0x77 }, 99, 1 << 20)
            }));
        }
        for cap in 0..=4usize {
            s.push(section(format!("input: capacity {cap}, all histories"), move |cx| tree(cx, &In { cap, sizes: (0..=cap + 1).collect() }, if cx.thorough { 4 } else { 3 })));
            s.push(section(format!("output: capacity {cap}, all histories"), move |cx| tree(cx, &Out { cap, sizes: (0..=cap + 1).collect(), fill: 0x00 }, if cx.thorough { 6 } else { 5 })));
        }
        for cap in [255usize, 256, 257, 65535, 65536, 65537, 70_000] {
            let sizes = vec![0, 1, 2, 128, 255, 256, 257, cap / 2, cap - 1, cap, cap + 1, cap + 255, cap + 256];
            let z = sizes.clone();
            s.push(section(format!("input: capacity {cap}"), move |cx| merged(cx, &In { cap, sizes: z.clone() }, if cx.thorough { 5 } else { 3 }, 1 << 20)));
            s.push(section(format!("output: capacity {cap}"), move |cx| merged(cx, &Out { cap, sizes: sizes.clone(), fill: 0xff }, if cx.thorough { 3 } else { 2 }, 1 << 20)));
        }
        // Beyond 32 bits: zeros that are never touched.
        s.push(section("input: more than 4 GiB", |cx| {
            let cap = (1usize << 32) + 17;
            let buf = vec![0u8; cap];
            let sizes = [0usize, 1, 15, 16, 17, 18, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 16, cap, cap + 1, usize::MAX];
            for a in sizes { for b in sizes { for c in sizes {
                cx.case(fp_of(&(a, b, c)), || format!("read {a}, {b}, {c} of {cap}"), |_| {
                    let mut i = Input::new(&buf);
                    let mut p = 0;
                    for n in [a, b, c] {
                        match i.read(n) {
                            Ok(s) => { ensure!(n <= cap - p && s.len() == n && s.as_ptr() as usize == buf.as_ptr() as usize + p, "Input: read", "{n} at {p}"); p += n }
                            Err(e) => ensure!(n > cap - p && (e.capacity, e.position, e.count) == (cap, p, n), "Input: error", "{n} at {p}: {:?}", (e.capacity, e.position, e.count)),
                        }
                        ensure!(i.position() == p && i.remaining() == cap - p && i.capacity() == cap, "Input: capacity, position and remaining", "{} {}", i.position(), i.remaining());
                    }
                    Ok("beyond 32 bits")
                });
                cx.transitions += 3;
                cx.traces += 1;
            } } }
        }));
        s
    });
}
