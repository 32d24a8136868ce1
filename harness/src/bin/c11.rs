//! C11: sized strings next to strings.

use oct::error::StringError;
use oct::{SizedSlice, SizedStr};
use std::borrow::{Borrow, BorrowMut};
use std::cell::Cell;
use std::ffi::OsStr;
use std::net::ToSocketAddrs;
use std::path::Path;
use std::str::FromStr;
use vh::bfs::{merged, tree, Sys};
use vh::cx::*;
use vh::model::utf8_valid_up_to;
use vh::{bad, ensure};

/// Everything that can be seen of a string, against the standard one.
fn same<const N: usize>(s: &mut SizedStr<N>, w: &str) -> Result<(), Bad> {
    let n = w.len();
    ensure!(utf8_valid_up_to(s.as_bytes()).is_none(), "SizedStr: not valid", "{:?}", s.as_bytes());
    ensure!(s.len() == n && s.capacity() == N && n <= N, "SizedStr: length or capacity", "{} of {} instead of {n} of {N}", s.len(), s.capacity());
    ensure!(s.is_empty() == (n == 0) && s.is_full() == (n == N), "SizedStr: is_empty or is_full", "{n} of {N}");
    ensure!(s.as_str() == w, "SizedStr: contents", "{:?} instead of {w:?}", s.as_str());
    ensure!(s.as_bytes() == w.as_bytes() && AsRef::<[u8]>::as_ref(s) == w.as_bytes(), "SizedStr: bytes", "{:?}", s.as_bytes());
    ensure!(AsRef::<str>::as_ref(s) == w && Borrow::<str>::borrow(s) == w && **s == *w, "SizedStr: views", "");
    ensure!(AsRef::<OsStr>::as_ref(s) == OsStr::new(w) && AsRef::<Path>::as_ref(s).as_os_str() == OsStr::new(w), "SizedStr: system string or path", "{s:?}");
    ensure!(s.as_mut_str() == w && AsMut::<str>::as_mut(s) == w && BorrowMut::<str>::borrow_mut(s) == w && &mut **s == w, "SizedStr: mutable views", "");
    let p = s.as_ptr();
    ensure!(s.as_mut_ptr().cast_const() == p && s.as_str().as_ptr() == p && s.as_bytes().as_ptr() == p && s.as_mut_str().as_ptr() == p, "SizedStr: address", "");
    ensure!(s.chars().eq(w.chars()) && s.chars().rev().eq(w.chars().rev()), "SizedStr: chars", "");
    ensure!(s.char_indices().eq(w.char_indices()) && s.bytes().eq(w.bytes()), "SizedStr: char_indices", "");
    ensure!(s.to_string() == w && format!("{s:?}") == format!("{w:?}"), "SizedStr: formatting", "{s:?}");
    ensure!(format!("{s:>9}|{s:<7.2}|{s:^8.1}|{s:*^5}|{s:.0}|{s:#}") == format!("{w:>9}|{w:<7.2}|{w:^8.1}|{w:*^5}|{w:.0}|{w:#}"), "SizedStr: formatting with parameters", "{s:>9}");
    ensure!(format!("{s:#?}|{s:>12?}") == format!("{w:#?}|{w:>12?}"), "SizedStr: formatting for debugging", "{s:#?}");
    for a in 0..=n + 1 { for b in 0..=n + 1 {
        ensure!(s.get(a..b) == w.get(a..b), "SizedStr: get", "{a}..{b}");
        if let Some(x) = w.get(a..b) { ensure!(s[a..b] == *x && &mut s[a..b] == x, "SizedStr: slicing", "{a}..{b}") }
    } }
    for (a, b) in [(0, n + 1), (n, n + 1), (1, 0)] { ensure!(guard(|| s[a..b].len()).is_err() && guard(|| { let _ = &mut s[a..b]; }).is_err(), "SizedStr: slicing beyond the end", "{a}..{b}") }
    for i in 0..=n { if !w.is_char_boundary(i) { ensure!(guard(|| s[i..].len()).is_err() && guard(|| { let _ = &mut s[..i]; }).is_err(), "SizedStr: slicing within a character", "{i}") } }
    ensure!(s[..] == *w && s[n..].is_empty() && s[..n] == *w, "SizedStr: slicing", "");
    let c = s.clone();
    ensure!(c.as_str() == w && c.capacity() == N, "SizedStr: clone", "{c:?}");
    let (b, l) = c.into_raw_parts();
    ensure!(l == n && b[..l] == *w.as_bytes(), "SizedStr: into_raw_parts", "{b:?} {l}");
    // All of the buffer must have a value.
    let sum: u64 = b.iter().map(|b| unsafe { std::ptr::read_volatile(b) } as u64).sum();
    ensure!(sum <= 255 * N as u64, "SizedStr: into_raw_parts", "");
    let again = unsafe { SizedStr::from_raw_parts(b, l) };
    ensure!(again.as_str() == w, "SizedStr: from_raw_parts", "{again:?}");
    let x: SizedSlice<u8, N> = again.into_bytes();
    ensure!(x.as_slice() == w.as_bytes() && x.capacity() == N, "SizedStr: into_bytes", "{x:?}");
    ensure!(*s.clone().into_boxed_str() == *w && *Box::<str>::from(s.clone()) == *w, "SizedStr: into_boxed_str", "");
    let mut t = s.clone().into_string();
    ensure!(t == w && t.capacity() >= n && String::from(s.clone()) == w, "SizedStr: into_string", "{t:?}");
    t.push_str("beyond");
    t.shrink_to_fit();
    ensure!(t.starts_with(w), "SizedStr: into_string", "{t:?}");
    ensure!(s.parse::<u8>() == w.parse::<u8>() && s.trim() == w.trim() && s.to_uppercase() == w.to_uppercase() && s.lines().eq(w.lines()), "SizedStr: string methods", "");
    Ok(())
}

fn made<const N: usize>(x: Result<SizedStr<N>, StringError>, w: &[u8], how: &str) -> Result<&'static str, Bad> {
    let invalid = utf8_valid_up_to(w);
    match x {
        Ok(mut s) => {
            ensure!(w.len() <= N, "SizedStr: longer than its capacity", "{how}: {} of {N}", w.len());
            ensure!(invalid.is_none(), "SizedStr: malformed accepted", "{how}: {w:?}");
            same(&mut s, std::str::from_utf8(w).unwrap())?;
            Ok("made")
        }
        Err(StringError::SmallBuffer(e)) => {
            ensure!(w.len() > N, "SizedStr: refuses what fits", "{how}: {} of {N}", w.len());
            ensure!((e.capacity, e.len) == (N, w.len()), "SizedStr: error", "{how}: {:?}", (e.capacity, e.len));
            Ok("too long")
        }
        Err(StringError::BadUtf8(e)) => {
            let Some(i) = invalid else { bad!("SizedStr: valid refused", "{how}: {w:?}") };
            ensure!((e.value, e.index) == (w[i], i), "SizedStr: error", "{how}: {:?} instead of {:?}", (e.value, e.index), (w[i], i));
            Ok("malformed")
        }
        Err(e) => bad!("SizedStr: error", "{how}: {e:?}"),
    }
}
fn all_ways<const N: usize>(b: &[u8]) -> Result<&'static str, Bad> {
    let r = made(SizedStr::<N>::from_utf8(b), b, "from_utf8")?;
    if let Ok(t) = std::str::from_utf8(b) {
        made(SizedStr::<N>::new(t), b, "new")?;
        made(SizedStr::<N>::from_str(t), b, "from_str")?;
        made(t.parse::<SizedStr<N>>(), b, "parse")?;
        made(SizedStr::<N>::try_from(t), b, "try_from(&str)")?;
        made(SizedStr::<N>::try_from(t.to_string()), b, "try_from(String)")?;
        if let (Some(c), 1) = (t.chars().next(), t.chars().count()) { made(SizedStr::<N>::try_from(c), b, "try_from(char)")?; }
        if b.len() <= N { made(Ok(unsafe { SizedStr::<N>::from_utf8_unchecked(b) }), b, "from_utf8_unchecked")?; }
    }
    Ok(r)
}
/// Applies `f` with each capacity.
macro_rules! caps { ($n:expr, $f:ident, $a:tt, $($c:literal)*) => { match $n { $($c => caps!(@call $f $c $a),)* n => panic!("capacity {n}") } }; (@call $f:ident $c:literal ($($a:expr),*)) => { $f::<$c>($($a),*) } }

/// One byte out of each class that a validator can tell apart, and edges.
const CLASSES: [u8; 25] = [0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff];

fn collect<const N: usize>(cs: &[char], hint: usize) -> Result<&'static str, Bad> {
    struct It<'a>(&'a [char], usize, &'a Cell<usize>, usize);
    impl Iterator for It<'_> {
        type Item = char;
        fn next(&mut self) -> Option<char> { self.1 += 1; self.2.set(self.1); self.0.get(self.1 - 1).copied() }
        fn size_hint(&self) -> (usize, Option<usize>) { match self.3 { 0 => (0, None), 1 => (self.0.len(), Some(self.0.len())), 2 => (usize::MAX, None), _ => (0, Some(0)) } }
    }
    let n = Cell::new(0);
    let mut s: SizedStr<N> = It(cs, 0, &n, hint).collect();
    let mut w = String::new();
    let mut k = 0;
    for c in cs { if w.len() + c.len_utf8() > N { break } w.push(*c); k += 1 }
    ensure!(n.get() <= k + 1, "SizedStr: characters taken", "{} though {k} fit", n.get());
    same(&mut s, &w)?;
    Ok(if k == cs.len() { "all fit" } else { "cut" })
}

struct M<const N: usize> { texts: Vec<String> }
#[derive(Clone, Debug)]
enum Op { Put(usize, u8), Collect(usize), Upper(u8), Lower(u8), UpperAt(usize, usize, u8), Byte(usize, u8, u8), SplitSwap(usize), Clone, CloneFrom(usize), Default, Raw, Bytes, Boxed, String, Code, Parse }

impl<const N: usize> Sys for M<N> {
    type Real = SizedStr<N>;
    type Model = String;
    type Op = Op;
    fn start(&self) -> (SizedStr<N>, String) { (SizedStr::default(), String::new()) }
    fn ops(&self, m: &String) -> Vec<Op> {
        let mut v = Vec::new();
        for i in 0..self.texts.len() { for w in 0..4 { v.push(Op::Put(i, w)) } v.push(Op::Collect(i)); v.push(Op::CloneFrom(i)) }
        for w in 0..4 { v.push(Op::Upper(w)); v.push(Op::Lower(w)) }
        for a in 0..=m.len() { for b in a..=m.len() { if m.get(a..b).is_some() { v.push(Op::UpperAt(a, b, (a % 2) as u8)) } } }
        for (i, b) in m.bytes().enumerate() {
            if b < 128 { for x in [b'a', b'Z', 0, 127] { v.push(Op::Byte(i, x, (i % 2) as u8)) } }
            if m.is_char_boundary(i) { v.push(Op::SplitSwap(i)) }
        }
        v.extend([Op::Clone, Op::Default, Op::Raw, Op::Bytes, Op::Boxed, Op::String, Op::Code, Op::Parse]);
        v
    }
    fn step(&self, r: &mut SizedStr<N>, m: &mut String, op: &Op) -> Result<&'static str, Bad> {
        let view = |r: &mut SizedStr<N>, w: u8| -> *mut str { match w { 0 => r.as_mut_str(), 1 => AsMut::<str>::as_mut(r), 2 => BorrowMut::<str>::borrow_mut(r), _ => &mut **r } };
        Ok(match op {
            Op::Put(i, w) => {
                let t = &self.texts[*i];
                let x = match w { 0 => SizedStr::new(t), 1 => t.parse(), 2 => SizedStr::try_from(t.clone()), _ => SizedStr::from_utf8(t.as_bytes()) };
                match x {
                    Ok(s) => { ensure!(t.len() <= N, "SizedStr: longer than its capacity", "{t:?}"); *r = s; *m = t.clone(); "made" }
                    Err(StringError::SmallBuffer(e)) => { ensure!(t.len() > N && (e.capacity, e.len) == (N, t.len()), "SizedStr: error", "{t:?}: {:?}", (e.capacity, e.len)); "too long" }
                    Err(e) => bad!("SizedStr: error", "{t:?}: {e:?}"),
                }
            }
            Op::Collect(i) => {
                *r = self.texts[*i].chars().collect();
                m.clear();
                for c in self.texts[*i].chars() { if m.len() + c.len_utf8() > N { break } m.push(c) }
                "collected"
            }
            Op::Upper(w) => { unsafe { (*view(r, *w)).make_ascii_uppercase() } m.make_ascii_uppercase(); "edited" }
            Op::Lower(w) => { unsafe { (*view(r, *w)).make_ascii_lowercase() } m.make_ascii_lowercase(); "edited" }
            Op::UpperAt(a, b, w) => {
                if *w == 0 { r[*a..*b].make_ascii_uppercase() } else { r.get_mut(*a..*b).unwrap().make_ascii_lowercase() }
                if *w == 0 { m[*a..*b].make_ascii_uppercase() } else { m[*a..*b].make_ascii_lowercase() }
                "edited"
            }
            Op::Byte(i, b, w) => {
                unsafe { if *w == 0 { r.as_mut_ptr().add(*i).write(*b) } else { r.as_bytes_mut()[*i] = *b } }
                unsafe { m.as_bytes_mut()[*i] = *b }
                "edited"
            }
            Op::SplitSwap(i) => { let (a, b) = r.split_at_mut(*i); a.make_ascii_uppercase(); b.make_ascii_lowercase(); let (a, b) = m.split_at_mut(*i); a.make_ascii_uppercase(); b.make_ascii_lowercase(); "edited" }
            Op::Clone => { let c = r.clone(); r.make_ascii_uppercase(); ensure!(c.as_str() == m, "SizedStr: clone shares its bytes", ""); *r = c; "cloned" }
            Op::CloneFrom(i) => { let mut t: SizedStr<N> = self.texts[*i].chars().collect(); t.clone_from(r); ensure!(t.as_str() == m, "SizedStr: clone_from", "{t:?}"); *r = t; "cloned" }
            Op::Default => { *r = SizedStr::default(); m.clear(); "made" }
            Op::Raw => { let (b, n) = std::mem::take(r).into_raw_parts(); *r = unsafe { SizedStr::from_raw_parts(b, n) }; "rebuilt" }
            Op::Bytes => { let b = std::mem::take(r).into_bytes(); match SizedStr::from_utf8(&b) { Ok(s) => *r = s, Err(e) => bad!("SizedStr: own bytes refused", "{e:?}") } "rebuilt" }
            Op::Boxed => { let b = std::mem::take(r).into_boxed_str(); *r = b.parse().unwrap(); "rebuilt" }
            Op::String => { let b = String::from(std::mem::take(r)); *r = b.try_into().unwrap(); "rebuilt" }
            Op::Code => {
                use oct::decode::{Decode, Input};
                use oct::encode::{Encode, Output};
                let mut buf = vec![0; N + 2];
                let n = { let mut o = Output::new(&mut buf); r.encode(&mut o).map_err(|e| Bad::new("SizedStr: encode", format!("{e:?}")))?; o.position() };
                ensure!(n == m.len() + 2, "SizedStr: encoding", "{n} bytes");
                *r = match SizedStr::decode(&mut Input::new(&buf[..n])) { Ok(s) => s, Err(e) => bad!("SizedStr: decode", "{e:?}") };
                "recoded"
            }
            Op::Parse => { let s = r.to_string(); *r = s.parse().unwrap(); "rebuilt" }
        })
    }
    fn observe(&self, r: &mut SizedStr<N>, m: &String) -> Result<(), Bad> { same(r, m) }
}

fn machine<const N: usize>(s: &mut Vec<Section>) {
    let texts: Vec<String> = ["", "a", "bC", "é", "aé", "€x", "x€", "😀", "a😀b", "éé", "abcdefg", "ß€😀", "\0", "A\u{7f}z", "xxxxxxxxxxxxxxxxx"].map(String::from).to_vec();
    let t = texts.clone();
    s.push(section(format!("SizedStr<{N}>: states"), move |cx| { let (d, n) = if cx.thorough { (8, 30_000) } else { (4, 500) }; merged(cx, &M::<N> { texts: t.clone() }, d, n) }));
    s.push(section(format!("SizedStr<{N}>: all histories"), move |cx| tree(cx, &M::<N> { texts: texts.clone() }, if cx.thorough { 3 } else { 2 })));
}

fn big<const N: usize>(cx: &mut Cx) {
    // Characters that all differ, of all widths in turn.
    let running: Vec<String> = (0..400u32).flat_map(|i| [0x20 + i % 0x5f, 0xa1 + i, 0x3001 + i * 7, 0x1f300 + i]).filter_map(char::from_u32).map(String::from).collect();
    for pre in ["", "a", "é", "€", "😀"] { for unit in ["x", "é", "€", "😀", ""] { for d in -5i64..=5 {
        let want = (N as i64 + d) as usize;
        let mut t = String::from(pre);
        if unit.is_empty() { for c in &running { if t.len() + c.len() <= want { t.push_str(c) } } }
        else { while t.len() + unit.len() <= want { t.push_str(unit) } }
        cx.case(fp_of(&(N, &t)), || format!("{} bytes of {pre:?} and {unit:?} in {N}", t.len()), |_| {
            let ok = t.len() <= N;
            let check = |x: Result<SizedStr<N>, StringError>| -> Result<(), Bad> { match x {
                Ok(s) => { ensure!(ok && s.as_str() == t && s.len() == t.len() && s.is_full() == (t.len() == N), "SizedStr: contents", "{}", s.len()); ensure!(s.clone().as_str() == t && s.clone().into_string() == t && s.into_raw_parts().1 == t.len(), "SizedStr: conversion", ""); Ok(()) }
                Err(StringError::SmallBuffer(e)) => { ensure!(!ok && (e.capacity, e.len) == (N, t.len()), "SizedStr: error", "{:?}", (e.capacity, e.len)); Ok(()) }
                Err(e) => bad!("SizedStr: error", "{e:?}"),
            } };
            check(SizedStr::new(&t))?;
            check(SizedStr::from_utf8(t.as_bytes()))?;
            check(t.parse())?;
            check(SizedStr::try_from(&t[..]))?;
            check(SizedStr::try_from(t.clone()))?;
            let s: SizedStr<N> = t.chars().collect();
            let mut cut = t.len().min(N);
            while !t.is_char_boundary(cut) { cut -= 1 }
            ensure!(s.as_str() == &t[..cut], "SizedStr: collect", "{} instead of {cut} bytes", s.len());
            // A malformed byte at every distance from the end.
            for at in [0, t.len() / 2, t.len().saturating_sub(1)] {
                let mut b = t.clone().into_bytes();
                if b.is_empty() { break }
                b[at] = 0xff;
                let i = utf8_valid_up_to(&b).unwrap();
                match SizedStr::<N>::from_utf8(&b) {
                    Err(StringError::BadUtf8(e)) => ensure!((e.value, e.index) == (b[i], i), "SizedStr: error", "{:?} instead of {:?}", (e.value, e.index), (b[i], i)),
                    Err(StringError::SmallBuffer(e)) => ensure!(!ok && (e.capacity, e.len) == (N, t.len()), "SizedStr: error", "{:?}", (e.capacity, e.len)),
                    x => bad!("SizedStr: malformed accepted", "{:?}", x.map(|s| s.len()).is_ok()),
                }
            }
            Ok(if ok { "fits" } else { "too long" })
        });
        cx.transitions += 9;
        cx.traces += 1;
    } } }
}

fn bytes_sections(s: &mut Vec<Section>, first: &'static [u8]) {
    s.push(section(format!("byte strings from {:#04x}", first[0]), move |cx| {
        let len = if cx.thorough { 5 } else { 4 };
        let mut todo: Vec<Vec<u8>> = first.iter().map(|b| vec![*b]).collect();
        let mut i = 0;
        while i < todo.len() {
            let b = todo[i].clone();
            i += 1;
            for cap in if b.len() >= 4 { vec![b.len() - 1, b.len()] } else { vec![0, 1, 2, 3, 4, 6] } {
                cx.case(fp_of(&(&b, cap)), || format!("{b:02x?} in {cap}"), |_| caps!(cap, all_ways, (&b), 0 1 2 3 4 5 6 7));
                cx.transitions += 1; cx.traces += 1;
            }
            if b.len() < len { for c in CLASSES { let mut b = b.clone(); b.push(c); todo.push(b) } }
        }
        cx.states += todo.len() as u64;
    }));
}

fn main() {
    run(|| {
        let mut v = Vec::new();
        let s = &mut v;
        for k in 0..25 { bytes_sections(s, &CLASSES[k..=k]) }
        s.push(section("empty byte string and all of two", |cx| {
            for cap in [0, 1, 2] { cx.case(fp_of(&cap), || format!("nothing in {cap}"), |_| caps!(cap, all_ways, (&[]), 0 1 2)); }
            for w in 0..=0xffffu16 { let b = w.to_le_bytes(); cx.case(fp_of(&(w, 2)), || format!("{b:02x?} in 2"), |_| all_ways::<2>(&b)); cx.transitions += 1; cx.traces += 1 }
        }));
        for hi in 0..16u32 { s.push(section(format!("all of three bytes: {hi:x}"), move |cx| {
            if !cx.thorough { cx.outcome("thorough only"); return }
            for w in hi << 20..(hi + 1) << 20 {
                let b = w.to_le_bytes();
                cx.case_mono(w as u64, || format!("{:02x?} in 3", &b[..3]), |_| {
                    let invalid = utf8_valid_up_to(&b[..3]);
                    match (SizedStr::<3>::from_utf8(&b[..3]), invalid) {
                        (Ok(s), None) => { ensure!(s.as_bytes() == &b[..3], "SizedStr: contents", "{s:?}"); Ok("valid") }
                        (Err(StringError::BadUtf8(e)), Some(i)) => { ensure!((e.value, e.index) == (b[i], i), "SizedStr: error", "{:?}", (e.value, e.index)); Ok("malformed") }
                        (x, i) => bad!("SizedStr: from_utf8", "{x:?} though {i:?}"),
                    }
                });
            }
            cx.transitions += 1 << 20; cx.traces += 1 << 20;
        })) }
        for k in 0..6u32 { s.push(section(format!("characters: {k}"), move |cx| {
            let all = cx.thorough;
            for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
                if c as u32 % 6 != k || !all && c as u32 > 0x3000 && c as u32 % 61 != 0 && !(c as u32 + 3 & 0xfff < 6) { continue }
                let mut buf = [0; 4];
                let b = c.encode_utf8(&mut buf).as_bytes();
                cx.case(fp_of(&c), || format!("{c:?}"), |_| {
                    for cap in [b.len() - 1, b.len(), 5] {
                        caps!(cap, all_ways, (b), 0 1 2 3 4 5)?;
                        caps!(cap, collect, (&[c], 1), 0 1 2 3 4 5)?;
                    }
                    Ok("character")
                });
                cx.transitions += 6; cx.traces += 3;
            }
        })) }
        for hint in 0..4usize { s.push(section(format!("collected characters: hint {hint}"), move |cx| {
            let alphabet = ['a', '\0', 'é', '\u{800}', '😀'];
            let mut lists: Vec<Vec<char>> = vec![vec![]];
            let mut i = 0;
            while i < lists.len() {
                let l = lists[i].clone();
                i += 1;
                for cap in 0..=12usize {
                    cx.case(fp_of(&(&l, cap)), || format!("{l:?} in {cap}"), |_| caps!(cap, collect, (&l, hint), 0 1 2 3 4 5 6 7 8 9 10 11 12));
                    cx.transitions += 1; cx.traces += 1;
                }
                if l.len() < if cx.thorough { 5 } else if hint == 1 { 4 } else { 3 } { for c in alphabet { let mut l = l.clone(); l.push(c); lists.push(l) } }
            }
        })) }
        machine::<0>(s); machine::<1>(s); machine::<2>(s); machine::<3>(s); machine::<4>(s); machine::<5>(s); machine::<6>(s); machine::<9>(s);
        s.push(section("longer strings", |cx| { big::<16>(cx); big::<255>(cx); big::<256>(cx); big::<257>(cx); big::<300>(cx) }));
        s.push(section("much longer strings", |cx| { big::<65535>(cx); big::<65536>(cx); big::<65537>(cx) }));
        s.push(section("raw parts with any unused bytes", |cx| {
            for fill in 0..=255u8 { for t in ["", "a", "é", "abc", "😀", "ab€"] {
                cx.case(fp_of(&(fill, t)), || format!("{t:?} before {fill:#x}"), |_| {
                    let mut b = [fill; 6];
                    b[..t.len()].copy_from_slice(t.as_bytes());
                    let mut s = unsafe { SizedStr::from_raw_parts(b, t.len()) };
                    same(&mut s, t)?;
                    let (c, n) = s.into_raw_parts();
                    ensure!(c == b && n == t.len(), "SizedStr: into_raw_parts", "{c:?} {n}");
                    Ok("raw")
                });
                cx.transitions += 2; cx.traces += 1;
            } }
        }));
        s.push(section("socket addresses", |cx| {
            for t in ["127.0.0.1:80", "0.0.0.0:0", "[::1]:65535", "[fe80::1]:1", "1.2.3.4", "", ":", "127.0.0.1:65536", "127.0.0.1:x", "[::1]"] {
                cx.case(fp_of(t), || t.into(), |_| {
                    let s = SizedStr::<24>::new(t).unwrap();
                    match (s.to_socket_addrs(), t.to_socket_addrs()) {
                        (Ok(a), Ok(b)) => ensure!(a.eq(b), "SizedStr: socket address", ""),
                        (Err(a), Err(b)) => ensure!(a.kind() == b.kind(), "SizedStr: socket address error", "{a} {b}"),
                        (a, b) => bad!("SizedStr: socket address", "{} {}", a.is_ok(), b.is_ok()),
                    }
                    Ok("address")
                });
                cx.transitions += 1; cx.traces += 1;
            }
        }));
        s.push(section("constants", |cx| cx.case(0, || "const".into(), |_| {
            const A: SizedStr<4> = match SizedStr::new("héy") { Ok(s) => s, Err(_) => panic!() };
            const B: bool = matches!(SizedStr::<4>::from_utf8(b"ab\xffd"), Err(StringError::BadUtf8(ref e)) if e.value == 0xff && e.index == 2);
            const C: ([u8; 4], usize) = unsafe { SizedStr::from_raw_parts(*b"abcd", 2) }.into_raw_parts();
            const D: usize = A.as_bytes().len() + A.as_str().len() + A.len() + A.capacity() + A.is_full() as usize + A.is_empty() as usize;
            same(&mut A.clone(), "héy")?;
            ensure!(B && C == (*b"abcd", 2) && D == 17, "SizedStr: constants", "{B} {C:?} {D}");
            Ok("constant")
        })));
        v
    });
}
