//! C10: sized slices next to a vector.

use oct::error::LengthError;
use oct::{SizedSlice, SizedStr};
use std::borrow::{Borrow, BorrowMut};
use std::cell::Cell;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::mem::MaybeUninit;
use std::rc::Rc;
use vh::bfs::{merged, tree, Sys};
use vh::cx::*;
use vh::{bad, ensure};

/// An element that stands for a small number.
trait Elem: Clone + Debug + PartialEq + Ord + std::hash::Hash + 'static {
    const COPY: bool = false;
    const DISTINCT: bool = true;
    fn make(id: u8) -> Self;
    fn id(&self) -> u8;
    fn copy<const N: usize>(_: &mut SizedSlice<Self, N>, _: &[Self]) { unreachable!() }
}
macro_rules! copy_elem { ($t:ty, $distinct:expr, |$i:ident| $make:expr, |$s:ident| $id:expr) => { impl Elem for $t {
    const COPY: bool = true;
    const DISTINCT: bool = $distinct;
    fn make($i: u8) -> Self { $make }
    fn id(&self) -> u8 { let $s = *self; $id }
    fn copy<const N: usize>(s: &mut SizedSlice<Self, N>, d: &[Self]) { s.copy_from_slice(d) }
} } }
copy_elem!(u8, true, |i| i, |s| s);
copy_elem!(u32, true, |i| 0xfeed_0100 | i as u32, |s| { assert_eq!(s >> 8, 0xfe_ed01); s as u8 });
copy_elem!((), false, |_i| (), |_s| 0);
#[repr(align(64))]
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Wide(u8, u64);
copy_elem!(Wide, true, |i| Wide(i, !(i as u64) << 40), |s| { assert_eq!(s.1, !(s.0 as u64) << 40); s.0 });
#[repr(align(32))]
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Nought;
copy_elem!(Nought, false, |_i| Nought, |_s| 0);
copy_elem!(Option<bool>, true, |i| [None, Some(false), Some(true)][i as usize % 3], |s| match s { None => 0, Some(false) => 1, _ => 2 });
copy_elem!(&'static str, true, |i| ["", "x", "yy"][i as usize % 3], |s| s.len() as u8);
copy_elem!([u16; 3], true, |i| [i as u16, 7, 0xff00 | i as u16], |s| { assert!(s[1] == 7 && s[2] == 0xff00 | s[0]); s[0] as u8 });
impl Elem for String {
    fn make(id: u8) -> Self { format!("element {id}") }
    fn id(&self) -> u8 { self.strip_prefix("element ").unwrap().parse().unwrap() }
}
impl Elem for Box<u8> {
    fn make(id: u8) -> Self { Box::new(id) }
    fn id(&self) -> u8 { **self }
}
impl Elem for SizedStr<3> {
    fn make(id: u8) -> Self { SizedStr::new(&id.to_string()).unwrap() }
    fn id(&self) -> u8 { self.as_str().parse().unwrap() }
}
/// The identifiers that differ for the element type.
fn norm<E: Elem>(ids: Vec<u8>) -> Vec<u8> { ids.into_iter().map(|i| E::make(i).id()).collect() }

/// An iterator that counts what is taken and says what it likes about its
/// length; `more` elements come after it has said that there are none.
struct Source { ids: Vec<u8>, at: usize, taken: Rc<Cell<(usize, usize)>>, hint: (usize, Option<usize>), more: bool, ended: bool }
impl Source {
    fn next_id(&mut self) -> Option<u8> {
        let (t, n) = self.taken.get();
        if self.at < self.ids.len() {
            self.at += 1;
            self.taken.set((t + 1, n));
            return Some(self.ids[self.at - 1]);
        }
        if self.ended && self.more {
            self.taken.set((t + 1, n));
            return Some(2);
        }
        self.ended = true;
        self.taken.set((t, n + 1));
        None
    }
}
struct SourceOf<E>(Source, PhantomData<E>);
impl<E: Elem> Iterator for SourceOf<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> { self.0.next_id().map(E::make) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.hint }
}

struct S<E, const N: usize> { alphabet: u8, every: bool, p: PhantomData<E> }
struct Real<E, const N: usize> { s: SizedSlice<E, N> }
/// The elements, and what is known of the unused part.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Model { used: Vec<u8>, spare: Vec<u8> }

#[derive(Clone, Debug, PartialEq)]
enum Op {
    New(Vec<u8>), TryFrom(Vec<u8>), Array(Vec<u8>), Collect(Vec<u8>, u8), Copy(Vec<u8>), SetLen(usize),
    Set(usize, u8, u8), Swap(usize, usize), Reverse, Sort, Rotate, Fill(u8), Range(usize, usize), Clone, CloneFrom, Raw, Vec, Boxed, FromVec, FromBox, Iter, IterMut, EachMut, Default, Take,
    Encode,
}

impl<E: Elem, const N: usize> S<E, N> {
    fn lists(&self, to: usize) -> Vec<Vec<u8>> {
        let mut out: Vec<Vec<u8>> = vec![vec![]];
        let mut last = out.clone();
        for n in 1..=to {
            last = if self.every && n <= 3 { last.iter().flat_map(|l| (0..self.alphabet).map(|a| { let mut l = l.clone(); l.push(a); l })).collect() }
            else { (0..2).map(|k| (0..n).map(|i| (i as u8 * (1 + k) + k) % self.alphabet).collect()).collect() };
            out.extend(last.iter().cloned());
        }
        for l in &mut out { *l = norm::<E>(l.clone()) }
        out.sort_by_key(|l| (l.len(), l.clone()));
        out.dedup();
        out
    }
}
fn mk<E: Elem>(ids: &[u8]) -> Vec<E> { ids.iter().map(|i| E::make(*i)).collect() }
fn ids<E: Elem>(v: &[E]) -> Vec<u8> { v.iter().map(|e| e.id()).collect() }

impl<E: Elem, const N: usize> Sys for S<E, N> {
    type Real = Real<E, N>;
    type Model = Model;
    type Op = Op;
    fn start(&self) -> (Real<E, N>, Model) { (Real { s: SizedSlice::default() }, Model { used: vec![], spare: vec![] }) }
    fn ops(&self, m: &Model) -> Vec<Op> {
        let mut v = Vec::new();
        for l in self.lists(N + 2) {
            v.push(Op::New(l.clone()));
            if l.len() > N || l.len() < 2 { v.push(Op::TryFrom(l.clone())) }
            if l.len() == N { v.push(Op::Array(l.clone())) }
            if E::COPY { v.push(Op::Copy(l.clone())) }
            v.push(Op::Collect(l.clone(), 0));
            if !self.every || l.len() % 2 == 0 { for k in 1..5 { v.push(Op::Collect(l.clone(), k)) } }
        }
        for n in 0..=if E::COPY { m.used.len() + m.spare.len() } else { 0 } { v.push(Op::SetLen(n)) }
        let n = m.used.len();
        for i in 0..n {
            for way in 0..if E::COPY { 8 } else { 7 } { v.push(Op::Set(i, (m.used[i] + 1 + way % 2) % self.alphabet, way)) }
            for j in 0..i { v.push(Op::Swap(i, j)) }
        }
        for a in 0..=n { for b in a..=n { v.push(Op::Range(a, b)) } }
        v.extend([Op::Reverse, Op::Sort, Op::Rotate, Op::Fill(1), Op::Clone, Op::CloneFrom, Op::Raw, Op::Vec, Op::Boxed, Op::FromVec, Op::FromBox, Op::Iter, Op::IterMut, Op::EachMut, Op::Default, Op::Take, Op::Encode]);
        v
    }
    fn step(&self, r: &mut Real<E, N>, m: &mut Model, op: &Op) -> Result<&'static str, Bad> {
        fn put<E, const N: usize>(r: &mut Real<E, N>, s: SizedSlice<E, N>) { r.s = s }
        let replaced = |m: &mut Model, l: &[u8]| { m.used = l.to_vec(); m.spare = vec![] };
        let made = |r: &mut Real<E, N>, m: &mut Model, x: Result<SizedSlice<E, N>, LengthError>, l: &[u8]| -> Result<&'static str, Bad> {
            match x {
                Ok(s) => { ensure!(l.len() <= N, "SizedSlice: longer than its capacity", "{} of {N}", l.len()); put(r, s); replaced(m, l); Ok("made") }
                Err(e) => {
                    ensure!(l.len() > N, "SizedSlice: refuses what fits", "{} of {N}", l.len());
                    ensure!((e.capacity, e.len) == (N, l.len()), "SizedSlice: error", "{:?}", (e.capacity, e.len));
                    Ok("refused")
                }
            }
        };
        Ok(match op {
            Op::New(l) => return { let src = mk::<E>(l); let x = SizedSlice::new(&src); ensure!(ids(&src) == *l, "SizedSlice: source changed", ""); made(r, m, x, l) },
            Op::TryFrom(l) => return { let src = mk::<E>(l); let x = SizedSlice::try_from(&src[..]); ensure!(ids(&src) == *l, "SizedSlice: source changed", ""); made(r, m, x, l) },
            Op::Array(l) => {
                let a: [E; N] = mk::<E>(l).try_into().unwrap();
                put(r, a.into());
                replaced(m, l);
                "made"
            }
            Op::Collect(l, kind) => {
                let taken = Rc::new(Cell::new((0, 0)));
                let hint = match kind { 0 => (l.len(), Some(l.len())), 1 => (0, None), 2 => (usize::MAX, None), 3 => (0, Some(0)), _ => (N, Some(N)) };
                let mut src = SourceOf::<E>(Source { ids: l.clone(), at: 0, taken: taken.clone(), hint, more: *kind == 4, ended: false }, PhantomData);
                let s: SizedSlice<E, N> = if *kind == 1 { src.by_ref().collect() } else { src.collect() };
                let n = l.len().min(N);
                let (t, ends) = taken.get();
                ensure!(t == n, "SizedSlice: elements taken from the iterator", "{t} instead of {n}");
                ensure!(ends <= 1, "SizedSlice: iterator asked again after its end", "{ends} times");
                put(r, s);
                replaced(m, &l[..n]);
                "collected"
            }
            Op::Copy(l) => {
                let src = mk::<E>(l);
                let old = m.clone();
                let ok = guard(|| E::copy(&mut r.s, &src));
                ensure!(ok.is_ok() == (l.len() <= N), "SizedSlice: copy_from_slice", "{ok:?}");
                if ok.is_err() { return Ok("copy refused") }
                // What is beyond the copied part stays as it was, and stays initialised.
                let mut all = old.used;
                all.extend(old.spare);
                m.used = l.clone();
                m.spare = all.get(l.len()..).unwrap_or(&[]).to_vec();
                "copied"
            }
            Op::SetLen(n) => {
                unsafe { r.s.set_len(*n) }
                let mut all = m.used.clone();
                if E::COPY { all.extend(&m.spare) }
                m.used = all[..*n].to_vec();
                m.spare = if E::COPY { all[*n..].to_vec() } else { vec![] };
                "length set"
            }
            Op::Set(i, id, way) => {
                let (i, e) = (*i, E::make(*id));
                match way {
                    0 => r.s.as_mut_slice()[i] = e,
                    1 => AsMut::<[E]>::as_mut(&mut r.s)[i] = e,
                    2 => BorrowMut::<[E]>::borrow_mut(&mut r.s)[i] = e,
                    3 => (*r.s)[i] = e,
                    4 => r.s[i] = e,
                    5 => r.s[i..][0] = e,
                    6 => *(&mut r.s).into_iter().nth(i).unwrap() = e,
                    _ => unsafe { r.s.as_mut_ptr().add(i).write(e) },
                }
                m.used[i] = E::make(*id).id();
                "set"
            }
            Op::Swap(i, j) => { r.s.swap(*i, *j); m.used.swap(*i, *j); "mutated" }
            Op::Reverse => { r.s.reverse(); m.used.reverse(); "mutated" }
            Op::Sort => { r.s.as_mut().sort(); let mut v = mk::<E>(&m.used); v.sort(); m.used = ids(&v); "mutated" }
            Op::Rotate => { let n = m.used.len() / 2; r.s.rotate_left(n); m.used.rotate_left(n); "mutated" }
            Op::Fill(x) => { r.s.fill(E::make(*x)); m.used.fill(E::make(*x).id()); "mutated" }
            Op::Range(a, b) => { r.s[*a..*b].reverse(); m.used[*a..*b].reverse(); "mutated" }
            Op::Clone => {
                let mut c = r.s.clone();
                ensure!(ids(c.as_slice()) == m.used && c.len() == m.used.len(), "SizedSlice: clone", "{c:?}");
                // Neither copy may affect the other.
                c.fill(E::make(2));
                ensure!(ids(r.s.as_slice()) == m.used, "SizedSlice: clone shares elements", "");
                let c = r.s.clone();
                r.s.fill(E::make(2));
                ensure!(ids(c.as_slice()) == m.used, "SizedSlice: clone shares elements", "");
                put(r, c);
                m.spare.clear();
                "cloned"
            }
            Op::CloneFrom => {
                for l in [0, N / 2, N] {
                    let mut t: SizedSlice<E, N> = (0..l).map(|i| E::make(i as u8 % 2)).collect();
                    t.clone_from(&r.s);
                    ensure!(ids(t.as_slice()) == m.used, "SizedSlice: clone_from", "{t:?}");
                }
                "cloned"
            }
            Op::Raw => {
                let s = std::mem::take(&mut r.s);
                let (buf, len) = s.into_raw_parts();
                ensure!(len == m.used.len(), "SizedSlice: into_raw_parts", "{len}");
                for i in 0..len { ensure!(unsafe { buf[i].assume_init_ref() }.id() == m.used[i], "SizedSlice: into_raw_parts", "element {i}") }
                put(r, unsafe { SizedSlice::from_raw_parts(buf, len) });
                "rebuilt"
            }
            Op::Vec | Op::Boxed | Op::FromVec | Op::FromBox => {
                let s = std::mem::take(&mut r.s);
                let (v, what) = match op {
                    Op::Vec => (s.into_vec(), "into_vec"),
                    Op::Boxed => (s.into_boxed_slice().into_vec(), "into_boxed_slice"),
                    Op::FromVec => (Vec::from(s), "Vec::from"),
                    _ => (Box::<[E]>::from(s).into_vec(), "Box::from"),
                };
                ensure!(ids(&v) == m.used, format!("SizedSlice: {what}"), "{v:?}");
                ensure!(v.as_ptr() as usize % std::mem::align_of::<E>() == 0, format!("SizedSlice: {what} misaligned"), "");
                // Growing and shrinking a vector uses its recorded capacity.
                let mut v = v;
                v.extend(mk::<E>(&[0, 1, 2]));
                v.truncate(m.used.len());
                v.shrink_to_fit();
                let l = m.used.clone();
                put(r, SizedSlice::new(&v).unwrap());
                replaced(m, &l);
                "converted"
            }
            Op::Iter => {
                let s = std::mem::take(&mut r.s);
                let v: Vec<E> = s.into_iter().collect();
                ensure!(ids(&v) == m.used, "SizedSlice: into_iter", "{v:?}");
                put(r, v.into_iter().collect());
                m.spare.clear();
                "converted"
            }
            Op::IterMut => {
                for e in &mut r.s { *e = E::make((e.id() + 1) % self.alphabet) }
                for i in &mut m.used { *i = E::make((*i + 1) % self.alphabet).id() }
                "mutated"
            }
            Op::EachMut => {
                let n = m.used.len();
                let base = r.s.as_ptr() as usize;
                let e = r.s.each_mut();
                ensure!(e.len() == n && e.capacity() == N, "SizedSlice: each_mut", "{} of {}", e.len(), e.capacity());
                let mut i = 0;
                for p in e {
                    ensure!(p as *const E as usize == base + i * std::mem::size_of::<E>(), "SizedSlice: each_mut", "element {i}");
                    *p = E::make((p.id() + 2) % self.alphabet);
                    i += 1;
                }
                ensure!(i == n, "SizedSlice: each_mut", "{i} elements");
                for i in &mut m.used { *i = E::make((*i + 2) % self.alphabet).id() }
                "mutated"
            }
            Op::Default => { put(r, SizedSlice::default()); replaced(m, &[]); "made" }
            Op::Take => {
                let s = std::mem::take(&mut r.s);
                ensure!(r.s.is_empty() && r.s.len() == 0, "SizedSlice: default", "{}", r.s.len());
                put(r, s);
                "moved"
            }
            Op::Encode => {
                // Only borrows: nothing may change.
                let v = r.s.as_slice().to_vec();
                let _ = (format!("{:?}", r.s), r.s.each_ref(), r.s.iter().count(), r.s.first(), fp_of(&r.s));
                ensure!(r.s.as_slice() == v, "SizedSlice: changed by reading", "");
                "read"
            }
        })
    }
    fn observe(&self, r: &mut Real<E, N>, m: &Model) -> Result<(), Bad> {
        let want = mk::<E>(&m.used);
        let n = want.len();
        let s = &mut r.s;
        ensure!(s.len() == n && s.capacity() == N, "SizedSlice: length or capacity", "{} of {} instead of {n} of {N}", s.len(), s.capacity());
        ensure!(s.is_empty() == (n == 0) && s.is_full() == (n == N), "SizedSlice: is_empty or is_full", "{n} of {N}");
        ensure!(ids(s.as_slice()) == m.used, "SizedSlice: elements", "{s:?} instead of {want:?}");
        ensure!(s.as_mut_slice() == &want[..] && **s == want[..] && AsRef::<[E]>::as_ref(s) == want && Borrow::<[E]>::borrow(s) == want, "SizedSlice: views", "");
        ensure!(AsMut::<[E]>::as_mut(s) == &want[..] && BorrowMut::<[E]>::borrow_mut(s) == &want[..], "SizedSlice: mutable views", "");
        let p = s.as_ptr() as usize;
        ensure!(p % std::mem::align_of::<E>() == 0 && s.as_mut_ptr() as usize == p && s.as_slice().as_ptr() as usize == p && s.as_mut_slice().as_ptr() as usize == p, "SizedSlice: address", "");
        let whole = s as *const _ as usize;
        ensure!(p >= whole && p + std::mem::size_of::<E>() * N <= whole + std::mem::size_of::<SizedSlice<E, N>>(), "SizedSlice: address", "outside");
        ensure!(s.iter().map(|e| e.id()).eq(m.used.iter().copied()) && (&*s).into_iter().rev().map(|e| e.id()).eq(m.used.iter().rev().copied()) && (&mut *s).into_iter().map(|e| e.id()).eq(m.used.iter().copied()), "SizedSlice: iteration", "");
        ensure!(format!("{s:?}") == format!("{want:?}") && format!("{s:#?}") == format!("{want:#?}"), "SizedSlice: formatting", "{s:?}");
        for i in 0..n { ensure!(s[i].id() == m.used[i] && s.get(i).is_some(), "SizedSlice: indexing", "{i}") }
        for i in [n, n + 1, N, N + 1, usize::MAX] { if i >= n {
            ensure!(s.get(i).is_none() && guard(|| s[i].id()).is_err() && guard(|| { let _ = &mut s[i]; }).is_err(), "SizedSlice: indexing beyond the end", "{i}");
        } }
        for a in 0..=n + 1 { for b in 0..=n + 1 {
            let ok = a <= b && b <= n;
            // Panics are slow: only the edges of what is refused.
            if !ok && !(b == n + 1 && (a == 0 || a == b) || a == b + 1 && a == n) { continue }
            let x = guard(|| ids(&s[a..b]));
            ensure!(x.is_ok() == ok && (!ok || x == Ok(m.used[a..b].to_vec())), "SizedSlice: slicing", "{a}..{b}: {x:?}");
            let x = guard(|| ids(&mut s[a..b]));
            ensure!(x.is_ok() == ok && (!ok || x == Ok(m.used[a..b].to_vec())), "SizedSlice: mutable slicing", "{a}..{b}: {x:?}");
        } }
        ensure!(s[..] == want[..] && s[n..].is_empty() && (n == 0 || s[..=n - 1].len() == n), "SizedSlice: slicing", "");
        let e = s.each_ref();
        ensure!(e.len() == n && e.capacity() == N, "SizedSlice: each_ref", "{} of {}", e.len(), e.capacity());
        for i in 0..n { ensure!(e[i].id() == m.used[i] && e[i] as *const E as usize == p + i * std::mem::size_of::<E>(), "SizedSlice: each_ref", "element {i}") }
        ensure!(s.first().map(|e| e.id()) == m.used.first().copied() && s.last().map(|e| e.id()) == m.used.last().copied() && s.contains(&E::make(1)) == want.contains(&E::make(1)), "SizedSlice: slice methods", "");
        Ok(())
    }
}

fn sys<E: Elem, const N: usize>(s: &mut Vec<Section>, name: &'static str) {
    s.push(section(format!("SizedSlice<{name}, {N}>"), move |cx| {
        let (d, n) = if cx.thorough { (6, 6_000) } else { (4, 250) };
        let a = if E::DISTINCT { 3 } else { 1 };
        merged(cx, &S::<E, N> { alphabet: a, every: cx.thorough && N < 4, p: PhantomData }, d, n);
    }));
    if N <= 3 { s.push(section(format!("SizedSlice<{name}, {N}>: all histories"), move |cx| {
        let a = if E::DISTINCT { 3 } else { 1 };
        tree(cx, &S::<E, N> { alphabet: a, every: false, p: PhantomData }, if cx.thorough && N <= 2 { 3 } else { 2 });
    })) }
}
/// Elements that all differ, in every form and way of making them.
fn long<const N: usize>(cx: &mut Cx) {
    for l in [0, 1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, N / 2, N - 2, N - 1, N] {
        if l > N { continue }
        cx.case(fp_of(&(N, l)), || format!("{l} of {N}"), |_| {
            let src: Vec<u32> = (0..l as u32).map(|i| i * 0x10077 + 3).collect();
            let same = |s: &SizedSlice<u32, N>, how: &str| { ensure!(s.as_slice() == src && s.len() == l && s.is_full() == (l == N) && s.is_empty() == (l == 0), format!("SizedSlice: {how}"), "{:?}", s.len()); Ok(()) };
            let Ok(s) = SizedSlice::<u32, N>::new(&src) else { bad!("SizedSlice: new", "refused") };
            same(&s, "new")?;
            same(&s.clone(), "clone")?;
            same(&src.iter().copied().collect(), "collect")?;
            let mut c: SizedSlice<u32, N> = std::iter::repeat_n(9, N).collect();
            c.copy_from_slice(&src);
            same(&c, "copy_from_slice")?;
            let mut c: SizedSlice<u32, N> = SizedSlice::default();
            c.copy_from_slice(&src);
            same(&c, "copy_from_slice")?;
            let mut c: SizedSlice<u32, N> = std::iter::repeat_n(7, l).collect();
            for (m, v) in c.each_mut().into_iter().zip(&src) { *m = *v }
            same(&c, "each_mut")?;
            ensure!(s.each_ref().into_iter().copied().eq(src.iter().copied()), "SizedSlice: each_ref", "");
            let Ok(c) = SizedSlice::<u32, N>::try_from(&src[..]) else { bad!("SizedSlice: try_from", "refused") };
            same(&c, "try_from")?;
            ensure!(Vec::from(s.clone()) == src && s.clone().into_vec() == src && *Box::<[u32]>::from(s.clone()) == src[..] && *s.clone().into_boxed_slice() == src[..], "SizedSlice: conversion", "");
            ensure!(s.clone().into_iter().eq(src.iter().copied()) && s.clone().into_iter().rev().eq(src.iter().rev().copied()), "SizedSlice: iterator", "");
            ensure!((&s).into_iter().eq(src.iter()) && s.iter().rev().eq(src.iter().rev()), "SizedSlice: iterator", "");
            // A change to each element in turn shows there, and nowhere else.
            for i in 0..l {
                let mut c = s.clone();
                c[i] ^= 0x8000_0000;
                ensure!(c != s && c.iter().zip(&src).enumerate().all(|(k, (x, y))| (x == y) == (k != i)), "SizedSlice: mutable indexing", "element {i}");
            }
            let (b, n) = s.into_raw_parts();
            same(&unsafe { SizedSlice::from_raw_parts(b, n) }, "from_raw_parts")?;
            Ok("long")
        });
        cx.transitions += 20;
        cx.traces += 1;
    }
}

macro_rules! all { ($s:ident, $($t:ty),*) => { $( sys::<$t, 0>($s, stringify!($t)); sys::<$t, 1>($s, stringify!($t)); sys::<$t, 2>($s, stringify!($t)); sys::<$t, 3>($s, stringify!($t)); sys::<$t, 5>($s, stringify!($t)); )* } }

/// Capacities about powers of 256, one history per length.
fn big<E: Elem, const N: usize>(s: &mut Vec<Section>, name: &'static str) {
    s.push(section(format!("SizedSlice<{name}, {N}>: selected lengths"), move |cx| {
        let mut ls = vec![0, 1, 2, 127, 128, 254, 255, 256, 257, 300, 511, 512, N.saturating_sub(1), N, N + 1, N + 2, N + 256, N + 65536];
        ls.sort();
        ls.dedup();
        for l in ls.into_iter().filter(|l| *l <= N + 256 || *l == N + 65536) {
            cx.case(fp_of(&l), || format!("{l} of {N}"), |_| {
                let src: Vec<E> = (0..l).map(|i| E::make((i % 3) as u8)).collect();
                let same = |s: &SizedSlice<E, N>, n: usize| s.len() == n && s.is_full() == (n == N) && s.as_slice() == &src[..n];
                match SizedSlice::<E, N>::new(&src) {
                    Ok(s) => {
                        ensure!(l <= N && same(&s, l), "SizedSlice: elements", "{}", s.len());
                        let mut s = s;
                        let at = |i: usize| std::mem::size_of::<E>() * i;
                        let base = s.as_ptr() as usize;
                        ensure!(s.as_mut_ptr() as usize == base && s.as_slice().as_ptr() as usize == base, "SizedSlice: pointers", "");
                        for (i, e) in s.each_ref().iter().enumerate() { ensure!(*e as *const E as usize == base + at(i), "SizedSlice: each_ref", "element {i}") }
                        let mut m = s.each_mut();
                        ensure!(m.len() == l && m.capacity() == N, "SizedSlice: each_mut", "{} of {}", m.len(), m.capacity());
                        for (i, e) in m.iter_mut().enumerate() { ensure!(*e as *mut E as usize == base + at(i), "SizedSlice: each_mut", "element {i}") }
                        for (i, e) in s.iter_mut().enumerate() { ensure!(e as *mut E as usize == base + at(i), "SizedSlice: iter_mut", "element {i}") }
                        for i in 0..l { ensure!(&s[i] as *const E as usize == base + at(i) && &mut s[i] as *mut E as usize == base + at(i) && s[i..].len() == l - i && s[..i].len() == i, "SizedSlice: indexing", "element {i}") }
                        ensure!(s.get(l).is_none() && s.get_mut(l).is_none() && s[l..].is_empty() && s.get(..l + 1).is_none(), "SizedSlice: indexing", "beyond {l}");
                        ensure!(same(&s.clone(), l) && s.each_ref().iter().map(|e| e.id()).eq(src.iter().map(|e| e.id())), "SizedSlice: clone or each_ref", "");
                        ensure!(s.clone().into_vec() == src && *s.clone().into_boxed_slice() == src[..], "SizedSlice: conversion", "");
                        let it = s.clone().into_iter();
                        ensure!(it.len() == l && it.as_slice() == src, "SizedSlice: iterator", "");
                        ensure!(it.eq(src.iter().cloned()), "SizedSlice: iterator", "");
                        let (b, n) = s.into_raw_parts();
                        ensure!(n == l, "SizedSlice: into_raw_parts", "{n}");
                        let s: SizedSlice<E, N> = unsafe { SizedSlice::from_raw_parts(b, n) };
                        ensure!(same(&s, l), "SizedSlice: from_raw_parts", "");
                    }
                    Err(e) => ensure!(l > N && (e.capacity, e.len) == (N, l), "SizedSlice: error", "{:?}", (e.capacity, e.len)),
                }
                let s: SizedSlice<E, N> = src.iter().cloned().collect();
                ensure!(same(&s, l.min(N)), "SizedSlice: collect", "{}", s.len());
                if E::COPY {
                    let mut s = SizedSlice::<E, N>::default();
                    let ok = guard(|| E::copy(&mut s, &src)).is_ok();
                    ensure!(ok == (l <= N) && same(&s, if ok { l } else { 0 }), "SizedSlice: copy_from_slice", "{ok}");
                }
                Ok("selected length")
            });
            cx.transitions += 8;
            cx.traces += 1;
        }
    }));
}

fn main() {
    run(|| {
        let mut v = Vec::new();
        let s = &mut v;
        all!(s, u8, u32, (), String, Wide, Nought, Option<bool>, Box<u8>, [u16; 3], &'static str, SizedStr<3>);
        sys::<u8, 8>(s, "u8");
        sys::<String, 7>(s, "String");
        s.push(section("long slices", |cx| { long::<64>(cx); long::<65>(cx); long::<128>(cx); long::<255>(cx); long::<256>(cx); long::<257>(cx); long::<600>(cx) }));
        big::<u8, 255>(s, "u8"); big::<u8, 256>(s, "u8"); big::<u8, 257>(s, "u8"); big::<u8, 65535>(s, "u8"); big::<u8, 65536>(s, "u8"); big::<u8, 65537>(s, "u8");
        big::<u32, 255>(s, "u32"); big::<u32, 256>(s, "u32"); big::<u32, 300>(s, "u32");
        big::<String, 256>(s, "String"); big::<(), 256>(s, "()"); big::<(), 65536>(s, "()"); big::<Wide, 256>(s, "Wide");
        // Unused parts with every bit pattern never come to light.
        s.push(section("unused parts of raw buffers", |cx| {
            for fill in 0..=255u8 { for len in 0..=4usize {
                cx.case(fp_of(&(fill, len)), || format!("{len} of 4 before {fill:#x}"), |_| {
                    let buf = [fill; 4].map(MaybeUninit::new);
                    let s = unsafe { SizedSlice::<u8, 4>::from_raw_parts(buf, len) };
                    ensure!(s.len() == len && s.as_slice() == &[fill; 4][..len] && s.clone().into_vec() == vec![fill; len], "SizedSlice: from_raw_parts", "");
                    ensure!(s.clone().as_slice() == s.as_slice() && s.each_ref().len() == len && s.into_iter().count() == len, "SizedSlice: from_raw_parts", "");
                    Ok("raw")
                });
                cx.transitions += 1;
                cx.traces += 1;
            } }
        }));
        // Usable in constants.
        s.push(section("constants", |cx| cx.case(0, || "const".into(), |_| {
            const fn f(d: &[u8]) -> (usize, bool, bool, usize) {
                let mut s: SizedSlice<u8, 3> = unsafe { SizedSlice::from_raw_parts([MaybeUninit::uninit(); 3], 0) };
                s.copy_from_slice(d);
                let e = s.each_ref().into_raw_parts().1;
                (s.as_slice().len(), s.is_empty(), s.is_full(), e)
            }
            const A: (usize, bool, bool, usize) = f(&[]);
            const B: (usize, bool, bool, usize) = f(&[1, 2]);
            const C: (usize, bool, bool, usize) = f(&[1, 2, 3]);
            if (A, B, C) != ((0, true, false, 0), (2, false, false, 2), (3, false, true, 3)) { bad!("SizedSlice: constants", "{A:?} {B:?} {C:?}") }
            Ok("constant")
        })));
        v
    });
}
