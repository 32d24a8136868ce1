//! C12: the owning iterator of sized slices.

use oct::{SizedIter, SizedSlice};
use std::collections::VecDeque;
use std::fmt::Debug;
use std::marker::PhantomData;
use vh::bfs::{merged, tree, Sys};
use vh::cx::*;
use vh::{bad, ensure};

const KNOWN: &str = "SizedIter::nth does not consume the element that it returns";

trait Elem: Clone + Debug + PartialEq + Ord + 'static {
    const DISTINCT: bool = true;
    fn make(id: u8) -> Self;
    fn id(&self) -> u8;
}
macro_rules! elem { ($t:ty, $d:expr, |$i:ident| $make:expr, |$s:ident| $id:expr) => { impl Elem for $t {
    const DISTINCT: bool = $d;
    fn make($i: u8) -> Self { $make }
    fn id(&self) -> u8 { let $s = self; $id }
} } }
elem!(u8, true, |i| i, |s| *s);
elem!(u64, true, |i| 0xfeed_0123_4567_8900 | i as u64, |s| { assert_eq!(*s >> 8, 0xfe_ed01_2345_6789); *s as u8 });
elem!((), false, |_i| (), |_s| 0);
elem!(String, true, |i| format!("element {i}"), |s| s.strip_prefix("element ").unwrap().parse().unwrap());
elem!(Box<u8>, true, |i| Box::new(i), |s| **s);
#[repr(align(32))]
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Wide(u8);
elem!(Wide, true, |i| Wide(i), |s| s.0);

fn slice<E: Elem, const N: usize>(n: usize) -> SizedSlice<E, N> { (0..n).map(|i| E::make(10 + i as u8)).collect() }
fn idlist<E: Elem>(n: usize) -> Vec<u8> { (0..n).map(|i| E::make(10 + i as u8).id()).collect() }

/// Whether `nth` leaves the element it returns in place (the known finding).
fn leaves() -> bool {
    let mut i = slice::<u8, 4>(4).into_iter();
    i.nth(1);
    i.len() == 3
}

/// The reference: a queue whose `nth` does what the real one's is known to do.
#[derive(Clone)]
struct Ref { q: VecDeque<u8>, leaves: bool }
impl Iterator for Ref {
    type Item = u8;
    fn next(&mut self) -> Option<u8> { self.q.pop_front() }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.q.len(), Some(self.q.len())) }
    fn nth(&mut self, k: usize) -> Option<u8> {
        for _ in 0..k { self.q.pop_front()?; }
        if self.leaves && k > 0 { self.q.front().copied() } else { self.q.pop_front() }
    }
}
impl DoubleEndedIterator for Ref { fn next_back(&mut self) -> Option<u8> { self.q.pop_back() } }
impl ExactSizeIterator for Ref { }

/// An element that may have been given away twice must not be dropped twice.
fn spend<E: Elem>(e: Option<E>, twice: bool) -> Option<u8> {
    let i = e.as_ref().map(E::id);
    if twice { std::mem::forget(e) }
    i
}

#[derive(Clone, Debug)]
enum Op { Next(usize), Back(usize), Nth(usize, usize), NthBack(usize, usize), Clone(usize), Drop(usize), Set(usize, usize, u8), Reverse(usize), TakeOf(usize, usize), RevOf(usize, usize), Fold(usize, usize), Swap }

struct S<E, const N: usize> { n: usize, leaves: bool, max: usize, two: bool, p: PhantomData<E> }
/// For every iterator: how many were taken from the front, and what remains.
type Model = Vec<(usize, VecDeque<u8>)>;

impl<E: Elem, const N: usize> Sys for S<E, N> {
    type Real = Vec<SizedIter<E, N>>;
    type Model = Model;
    type Op = Op;
    fn start(&self) -> (Self::Real, Model) { (vec![slice(self.n).into_iter()], vec![(0, idlist::<E>(self.n).into())]) }
    fn ops(&self, m: &Model) -> Vec<Op> {
        let mut v = Vec::new();
        for (i, (_, q)) in m.iter().enumerate() {
            let n = q.len();
            v.extend([Op::Next(i), Op::Back(i), Op::Reverse(i)]);
            for k in 0..=n + 1 { v.push(Op::Nth(i, k)); v.push(Op::NthBack(i, k)) }
            if self.two { v.extend([Op::Nth(i, usize::MAX), Op::NthBack(i, usize::MAX - 1)]) }
            if m.len() < self.max { v.push(Op::Clone(i)) }
            if m.len() > 1 { v.push(Op::Drop(i)) }
            for k in 0..n { v.push(Op::Set(i, k, (k % 2) as u8)) }
            if self.two { for k in [1, 2] { v.push(Op::TakeOf(i, k)); v.push(Op::RevOf(i, k)); v.push(Op::Fold(i, k)) } }
        }
        if m.len() == 2 { v.push(Op::Swap) }
        v
    }
    fn step(&self, r: &mut Self::Real, m: &mut Model, op: &Op) -> Result<&'static str, Bad> {
        Ok(match *op {
            Op::Next(i) => {
                let (g, w) = (r[i].next().map(|e| e.id()), m[i].1.pop_front());
                ensure!(g == w, "SizedIter: next", "{g:?} instead of {w:?}");
                if w.is_some() { m[i].0 += 1; "next" } else { "exhausted" }
            }
            Op::Back(i) => {
                let (g, w) = (r[i].next_back().map(|e| e.id()), m[i].1.pop_back());
                ensure!(g == w, "SizedIter: next_back", "{g:?} instead of {w:?}");
                if w.is_some() { "back" } else { "exhausted" }
            }
            Op::Nth(i, k) => {
                let before = m[i].1.len();
                let mut x = Ref { q: std::mem::take(&mut m[i].1), leaves: self.leaves };
                let w = x.nth(k);
                let g = spend(r[i].nth(k), self.leaves && k > 0);
                ensure!(g == w, "SizedIter: nth", "{g:?} instead of {w:?}");
                m[i].0 += before - x.q.len();
                m[i].1 = x.q;
                "nth"
            }
            Op::NthBack(i, k) => {
                let w = { let q = &mut m[i].1; if k >= q.len() { q.clear(); None } else { for _ in 0..k { q.pop_back(); } q.pop_back() } };
                let g = r[i].nth_back(k).map(|e| e.id());
                ensure!(g == w, "SizedIter: nth_back", "{g:?} instead of {w:?}");
                "nth_back"
            }
            Op::Clone(i) => { let c = r[i].clone(); r.push(c); let c = m[i].clone(); m.push(c); "cloned" }
            Op::Drop(i) => { r.remove(i); m.remove(i); "dropped" }
            Op::Set(i, k, way) => {
                let new = E::make(m[i].1[k].wrapping_add(40) % 120);
                let id = new.id();
                if way == 0 { r[i].as_mut_slice()[k] = new } else { AsMut::<[E]>::as_mut(&mut r[i])[k] = new }
                m[i].1[k] = id;
                "changed"
            }
            Op::Reverse(i) => { r[i].as_mut_slice().reverse(); m[i].1.make_contiguous().reverse(); "changed" }
            Op::TakeOf(i, k) => {
                let g: Vec<u8> = r[i].by_ref().take(k).map(|e| e.id()).collect();
                let n = k.min(m[i].1.len());
                let w: Vec<u8> = m[i].1.drain(..n).collect();
                ensure!(g == w, "SizedIter: take", "{g:?} instead of {w:?}");
                m[i].0 += n;
                "adaptor"
            }
            Op::RevOf(i, k) => {
                let g: Vec<u8> = r[i].by_ref().rev().take(k).map(|e| e.id()).collect();
                let w: Vec<u8> = (0..k).filter_map(|_| m[i].1.pop_back()).collect();
                ensure!(g == w, "SizedIter: rev", "{g:?} instead of {w:?}");
                "adaptor"
            }
            Op::Fold(i, k) => {
                // Stops in the middle.
                let mut left = k;
                let mut g = vec![];
                let _ = r[i].try_fold((), |(), e| { g.push(e.id()); left -= 1; if left == 0 { Err(()) } else { Ok(()) } });
                let n = k.min(m[i].1.len());
                let w: Vec<u8> = m[i].1.drain(..n).collect();
                ensure!(g == w, "SizedIter: try_fold", "{g:?} instead of {w:?}");
                m[i].0 += n;
                "adaptor"
            }
            Op::Swap => { let (a, b) = r.split_at_mut(1); std::mem::swap(&mut a[0], &mut b[0]); m.swap(0, 1); "swapped" }
        })
    }
    fn observe(&self, r: &mut Self::Real, m: &Model) -> Result<(), Bad> {
        for (it, (_, q)) in r.iter_mut().zip(m) {
            let n = q.len();
            ensure!(it.len() == n && it.size_hint() == (n, Some(n)), "SizedIter: remaining length", "{} {:?} instead of {n}", it.len(), it.size_hint());
            let ids = |s: &[E]| s.iter().map(E::id).eq(q.iter().copied());
            ensure!(ids(it.as_slice()) && ids(AsRef::<[E]>::as_ref(it)), "SizedIter: as_slice", "{:?} instead of {q:?}", it.as_slice());
            ensure!(ids(it.as_mut_slice()) && ids(AsMut::<[E]>::as_mut(it)), "SizedIter: as_mut_slice", "");
            if n == 0 { for _ in 0..2 { ensure!(it.next().is_none() && it.next_back().is_none() && it.len() == 0, "SizedIter: exhausted yields", "") } }
        }
        Ok(())
    }
}

/// Adaptors and consumers, of the state that `front` and `back` takes reach.
macro_rules! adaptors { ($name:ident, $it:ident: $ty:ty, $id:expr, $twice:expr) => {
    #[allow(clippy::all)]
    fn $name<E: Elem, const N: usize>(which: usize, k: usize, $it: $ty) -> Option<Vec<u64>> {
        let id = $id;
        let f = |v: Vec<u64>| Some(v);
        let l = |b: bool| b as u64;
        let o = |o: Option<u64>| o.map_or(999, |x| x);
        let mut it = $it;
        match which {
            0 => f(it.map(id).collect()),
            1 => f(it.rev().map(id).collect()),
            2 => { let v = it.skip(k).map($twice).collect(); f(v) }
            3 => { let v = it.step_by(k + 1).map($twice).collect(); f(v) }
            4 => f(it.take(k).map(id).collect()),
            5 => f(it.map(id).chain([77]).collect()),
            6 => f(it.map(id).zip(0u64..).flat_map(|(a, b)| [a, b]).collect()),
            7 => f(it.enumerate().flat_map(|(a, b)| [a as u64, id(b)]).collect()),
            8 => { let mut p = it.map(id).peekable(); let mut v = vec![o(p.peek().copied()), p.len() as u64]; v.extend(p); f(v) }
            9 => f(vec![o(it.last().map(id))]),
            10 => f(vec![it.count() as u64]),
            11 => f(vec![o(it.map(id).min())]),
            12 => f(vec![o(it.map(id).max())]),
            13 => f(vec![it.map(id).fold(1, |a, b| a * 31 + b)]),
            14 => f(vec![it.map(id).rfold(1, |a, b| a * 31 + b)]),
            15 => { let p = it.position(|e| id(e) == 10 + k as u64); let mut v = vec![o(p.map(|x| x as u64)), it.len() as u64]; v.extend(it.map(id)); f(v) }
            16 => { let p = it.rposition(|e| id(e) == 10 + k as u64); let mut v = vec![o(p.map(|x| x as u64)), it.len() as u64]; v.extend(it.map(id)); f(v) }
            17 => { let mut m = it.map(id); let p = m.find(|e| *e == 10 + k as u64); let mut v = vec![o(p)]; v.extend(m); f(v) }
            18 => { let mut m = it.map(id); let p = m.rfind(|e| *e == 10 + k as u64); let mut v = vec![o(p)]; v.extend(m); f(v) }
            19 => { let a = it.all(|e| id(e) < 10 + k as u64); let mut v = vec![l(a)]; v.extend(it.map(id)); f(v) }
            20 => { let a = it.any(|e| id(e) == 10 + k as u64); let mut v = vec![l(a)]; v.extend(it.map(id)); f(v) }
            21 => { let (a, b): (Vec<u64>, Vec<u64>) = it.map(id).partition(|e| e % 2 == k as u64 % 2); f([a, b].concat()) }
            22 => { let mut v = Vec::new(); loop { let c: Vec<u64> = it.by_ref().take(k + 1).map(id).collect(); if c.is_empty() { break } v.push(c.len() as u64); v.extend(c) } f(v) }
            23 => { let mut v = Vec::new(); loop { v.push(it.len() as u64); let Some(a) = it.next() else { break }; v.push(id(a)); let Some(b) = it.next_back() else { break }; v.push(id(b)) } v.push(it.len() as u64); f(v) }
            24 => f(it.map(id).skip_while(|e| *e < 10 + k as u64).collect()),
            25 => f(it.map(id).take_while(|e| *e < 10 + k as u64).collect()),
            26 => f(it.fuse().map(id).rev().collect()),
            27 => { let mut v = Vec::new(); it.for_each(|e| v.push(id(e))); f(v) }
            28 => f(it.map(id).rev().enumerate().flat_map(|(a, b)| [a as u64, b]).collect()),
            29 => { let mut r = it.rev(); let a = r.nth(k).map(id); let mut v = vec![o(a), r.len() as u64]; v.extend(r.map(id)); f(v) }
            30 => { let c = it.clone(); let a: Vec<u64> = it.map(id).collect(); let b: Vec<u64> = c.rev().map(id).collect(); f([a, b].concat()) }
            31 => { let mut c = it.clone(); let a = c.next().map(id); let b = it.next_back().map(id); f(vec![o(a), c.len() as u64, o(b), it.len() as u64]) }
            32 => f(it.collect::<std::collections::VecDeque<_>>().into_iter().map(id).collect()),
            33 => { let mut v: Vec<_> = Vec::with_capacity(1); v.extend(it); f(v.into_iter().map(id).collect()) }
            34 => f(it.map(id).cycle().take(7).collect()),
            35 => f(vec![l(it.map(id).is_sorted())]),
            36 => { let mut v = Vec::new(); let mut r = it.rev(); while let Some(e) = r.next_back() { v.push(id(e)); if let Some(e) = r.next() { v.push(id(e)) } } f(v) }
            37 => f(it.map(id).scan(0, |s, e| { *s += e; Some(*s) }).collect()),
            38 => f(it.map(id).reduce(|a, b| a * 7 + b).into_iter().collect()),
            39 => { let mut v = vec![]; for e in it { v.push(id(e)) } f(v) }
            40 => { let a: SizedSlice<_, 3> = it.collect(); f(a.into_iter().map(id).collect()) }
            41 => { let mut c = it.clone(); let n = c.len(); for _ in 0..k { c.next_back(); } let d = c.clone(); f(vec![n as u64, c.len() as u64, d.len() as u64, o(d.last().map(id)), o(c.next().map(id))]) }
            42 => { let v = it.map(id).filter(|e| e % 2 == 0).rev().collect(); f(v) }
            43 => { let mut c = it.clone(); let a = c.try_for_each(|e| if id(e) == 10 + k as u64 { Err(()) } else { Ok(()) }); f(vec![l(a.is_ok()), c.len() as u64, it.len() as u64]) }
            44 => { let a = it.try_rfold(0u64, |s, e| { let e = id(e); if e == 10 + k as u64 { Err(s) } else { Ok(s * 3 + e) } }); f(vec![match a { Ok(x) => x, Err(x) => x + 1000 }, it.len() as u64]) }
            _ => None,
        }
    }
} }
adaptors!(real, it: SizedIter<E, N>, |e: E| e.id() as u64, |e: E| { let i = e.id() as u64; std::mem::forget(e); i });
adaptors!(want, it: Ref, |e: u8| e as u64, |e: u8| e as u64);

fn sections<E: Elem, const N: usize>(s: &mut Vec<Section>, name: &'static str) {
    s.push(section(format!("SizedIter<{name}, {N}>: states"), move |cx| for n in 0..=N {
        let leaves = leaves();
        merged(cx, &S::<E, N> { n, leaves, max: 1, two: true, p: PhantomData }, if cx.thorough { 10 } else { 7 }, if cx.thorough { 60_000 } else { 3000 });
        merged(cx, &S::<E, N> { n, leaves, max: 2, two: false, p: PhantomData }, if cx.thorough { 8 } else { 6 }, if cx.thorough { 60_000 } else { 3000 });
    }));
    if N <= 3 { s.push(section(format!("SizedIter<{name}, {N}>: all histories"), move |cx| for n in 0..=N {
        let leaves = leaves();
        tree(cx, &S::<E, N> { n, leaves, max: 2, two: false, p: PhantomData }, if cx.thorough && N < 3 { 5 } else if cx.thorough || N < 3 { 4 } else { 3 });
    })) }
    s.push(section(format!("SizedIter<{name}, {N}>: adaptors"), move |cx| {
        let leaves = leaves();
        for n in 0..=N { for front in 0..=n { for back in 0..=n - front { for k in 0..=n + 1 { for which in 0.. {
            let mut q: VecDeque<u8> = idlist::<E>(n).into();
            q.drain(..front);
            q.truncate(n - front - back);
            // What is right, and what follows from the known finding alone.
            let Some(right) = want::<E, N>(which, k, Ref { q: q.clone(), leaves: false }) else { break };
            let known = want::<E, N>(which, k, Ref { q, leaves }).unwrap();
            cx.case(fp_of(&(n, front, back, k, which)), || format!("adaptor {which} with {k} on {n} elements less {front} and {back}"), |_| {
                let mut it = slice::<E, N>(n).into_iter();
                for _ in 0..front { it.next(); }
                for _ in 0..back { it.next_back(); }
                let got = real(which, k, it).unwrap();
                if got != right && got == known { bad!(KNOWN, "{got:?} instead of {right:?}") }
                ensure!(got == right, format!("SizedIter: adaptor {which}"), "{got:?} instead of {right:?}");
                Ok("as a vector's")
            });
            cx.transitions += 1; cx.traces += 1;
        } } } } }
    }));
    // Whether skipping consumes.
    s.push(section(format!("SizedIter<{name}, {N}>: skipping"), move |cx| for n in 0..=N { for front in 0..=n { for k in 0..=n + 1 {
        cx.case(fp_of(&(n, front, k)), || format!("nth({k}) of {n} elements less {front}"), |_| {
            let mut it = slice::<E, N>(n).into_iter();
            for _ in 0..front { it.next(); }
            let rem = n - front;
            let e = spend(it.nth(k), true);
            ensure!(e == idlist::<E>(n).get(front + k).copied(), "SizedIter: nth", "{e:?}");
            let left = rem.saturating_sub(k.saturating_add(1));
            if k > 0 && k < rem && it.len() == left + 1 { bad!(KNOWN, "{} elements remain instead of {left}", it.len()) }
            ensure!(it.len() == left, "SizedIter: nth", "{} elements remain instead of {left}", it.len());
            Ok("consumed")
        });
        cx.transitions += 1; cx.traces += 1;
    } } }));
}
macro_rules! all { ($s:ident, $($t:ty),*) => { $( sections::<$t, 0>($s, stringify!($t)); sections::<$t, 1>($s, stringify!($t)); sections::<$t, 2>($s, stringify!($t)); sections::<$t, 3>($s, stringify!($t)); sections::<$t, 4>($s, stringify!($t)); )* } }

fn big<const N: usize>(cx: &mut Cx) {
    let leaves = leaves();
    for n in [0, 1, 2, 127, 128, 255, 256, 257, N - 1, N] { if n > N { continue }
        for front in [0, 1, 2, 128, 255, 256, n / 2, n.saturating_sub(1), n] { for back in [0, 1, 127, 255, 256, n / 3] {
            if front + back > n { continue }
            cx.case(fp_of(&(N, n, front, back)), || format!("{n} of {N} less {front} and {back}"), |_| {
                let src: Vec<u32> = (0..n as u32).map(|i| i * 77).collect();
                let mut it = SizedSlice::<u32, N>::new(&src).map_err(|_| Bad::new("SizedSlice: refused", ""))?.into_iter();
                for i in 0..front { ensure!(it.next() == Some(src[i]), "SizedIter: next", "{i}") }
                for i in 0..back { ensure!(it.next_back() == Some(src[n - 1 - i]), "SizedIter: next_back", "{i}") }
                let w = &src[front..n - back];
                ensure!(it.len() == w.len() && it.as_slice() == w && it.size_hint() == (w.len(), Some(w.len())), "SizedIter: remaining", "{}", it.len());
                let c = it.clone();
                ensure!(c.len() == w.len() && c.as_slice() == w, "SizedIter: clone", "{}", c.len());
                ensure!(it.clone().eq(w.iter().copied()) && c.rev().eq(w.iter().rev().copied()), "SizedIter: clone", "");
                for k in [1, 2, 127, 128, 255, 256, 257] {
                    let mut c = it.clone();
                    ensure!(c.nth_back(k) == w.iter().rev().nth(k).copied() && c.len() == w.len().saturating_sub(k + 1), "SizedIter: nth_back", "{k}");
                    let mut c = it.clone();
                    let left = w.len().saturating_sub(k + 1) + (leaves && k < w.len()) as usize;
                    ensure!(c.nth(k) == w.get(k).copied() && c.len() == left, "SizedIter: nth", "{k}");
                }
                Ok("longer")
            });
            cx.transitions += (front + back) as u64; cx.traces += 1;
        } }
    }
}

fn main() {
    run(|| {
        let mut v = Vec::new();
        let s = &mut v;
        all!(s, u8, u64, (), String, Box<u8>, Wide);
        sections::<u8, 6>(s, "u8");
        s.push(section("longer slices", |cx| { big::<255>(cx); big::<256>(cx); big::<257>(cx); big::<600>(cx) }));
        s
            .push(section("borrowing iteration", |cx| for n in 0..=5usize {
                cx.case(fp_of(&n), || format!("{n} elements"), |_| {
                    let mut x = slice::<String, 5>(n);
                    let w = idlist::<String>(n);
                    ensure!((&x).into_iter().map(|e| e.id()).eq(w.iter().copied()) && (&x).into_iter().len() == n, "SizedSlice: iteration by reference", "");
                    for e in &mut x { e.push('0') }
                    ensure!(x.iter().map(|e| e.id()).eq(w.iter().map(|i| i * 10)), "SizedSlice: iteration by mutable reference", "{x:?}");
                    Ok("borrowed")
                });
                cx.transitions += 2; cx.traces += 1;
            }));
        v
    });
}
