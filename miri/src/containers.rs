//! Operation sequences on the containers and streams.

use crate::chooser::Chooser;
use crate::elem::*;
use crate::{see, show, Scenario};
use oct::decode::Input;
use oct::encode::Output;
use oct::{Slot, SizedSlice, SizedStr};
use std::borrow::{Borrow, BorrowMut};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn hashed(v: &impl Hash) {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    std::hint::black_box(h.finish());
}

/// A sized slice with `0..=N` elements (or more, which is refused).
fn make<T: Elem, const N: usize>(k: usize, way: usize) -> Option<SizedSlice<T, N>> {
    let mut items: Vec<T> = Vec::with_capacity(k);
    for i in 0..k {
        items.push(T::make(i as u8));
    }
    Some(match way {
        0 => SizedSlice::new(&items).ok()?,
        1 => SizedSlice::try_from(&items[..]).ok()?,
        2 => items.into_iter().collect(),
        3 => {
            let a: [T; N] = items.try_into().ok()?;
            SizedSlice::from(a)
        }
        4 => {
            // From something that panics halfway.
            let n = items.len();
            items.into_iter().enumerate().map(|(i, v)| if i + 1 == n { panic!("iterator") } else { v }).collect()
        }
        _ => {
            CLONES.with(|c| c.set(k as u32 / 2));
            let s = SizedSlice::new(&items).ok();
            CLONES.with(|c| c.set(u32::MAX));
            s?
        }
    })
}

fn made<T: Elem, const N: usize>(ch: &mut Chooser) -> &'static str {
    let k = ch.choose(N + 2);
    let way = ch.choose(6);
    let r = catch_unwind(|| make::<T, N>(k, way));
    CLONES.with(|c| c.set(u32::MAX));
    let Ok(Some(s)) = r else { return "refused" };
    see(&s);
    for e in s {
        see(&e);
    }
    "made"
}

fn slice<T: Elem, const N: usize, const OPS: usize>(ch: &mut Chooser) -> &'static str {
    let mut s = make::<T, N>(ch.choose(N + 1), 2).unwrap();
    let mut other = SizedSlice::<T, N>::default();
    for _ in 0..OPS {
        match ch.choose(17) {
            0 => break,
            1 => {
                let c = s.clone();
                see(&c);
                other = std::mem::replace(&mut s, c);
            }
            2 => std::mem::swap(&mut s, &mut other),
            3 => {
                see(&s);
                hashed(&s);
                see(&(s == other, s.cmp(&other), s.partial_cmp(&other)));
            }
            4 => {
                let r = s.each_ref();
                see(&r);
                let r2 = r.clone();
                drop(r);
                see(&r2.as_slice());
            }
            5 => {
                let mut r = s.each_mut();
                for e in r.iter_mut() {
                    e.alter();
                }
                if let [a, .., b] = r.as_mut_slice() {
                    std::mem::swap(*a, *b);
                }
                see(&r);
            }
            6 => {
                for e in s.as_mut_slice() {
                    e.alter();
                }
                for e in &mut s {
                    e.alter();
                }
                AsMut::<[T]>::as_mut(&mut s).reverse();
                BorrowMut::<[T]>::borrow_mut(&mut s).sort();
                for e in &s {
                    see(e);
                }
                see(&(AsRef::<[T]>::as_ref(&s).len(), Borrow::<[T]>::borrow(&s).len(), s.len(), s.capacity(), s.is_empty(), s.is_full()));
            }
            7 => {
                let i = ch.choose(N + 2);
                see(&s[..i]);
            }
            8 => {
                let i = ch.choose(N + 2);
                s[i].alter();
                see(&s[i..]);
            }
            9 => {
                let v = s.into_vec();
                see(&v);
                s = v.into_iter().collect();
            }
            10 => {
                let b: Box<[T]> = s.into();
                see(&b);
                s = SizedSlice::new(&b).unwrap();
            }
            11 => {
                let (buf, len) = s.into_raw_parts();
                // These are what it was made of.
                s = unsafe { SizedSlice::from_raw_parts(buf, len) };
                // Elements were initialised there, and are only leaked.
                let n = ch.choose(len + 1);
                unsafe { s.set_len(n) };
            }
            12 => {
                let b: Box<[T]> = s.into_boxed_slice();
                s = b.into_vec().into_iter().rev().collect();
            }
            13 => {
                // Iterates from both ends, and keeps what is left.
                let mut it = s.into_iter();
                let a = it.next();
                let b = it.next_back();
                see(&(&a, &b, it.len(), it.as_slice()));
                s = a.into_iter().chain(b).chain(it).collect();
            }
            14 => {
                CLONES.with(|c| c.set(ch.choose(N + 1) as u32));
                let r = catch_unwind(AssertUnwindSafe(|| s.clone()));
                CLONES.with(|c| c.set(u32::MAX));
                if let Ok(c) = r {
                    see(&c);
                }
            }
            15 => {
                let v: Vec<T> = s.clone().into();
                see(&(s == &v[..], s == v, v.len()));
            }
            _ => {
                let d = SizedSlice::<T, N>::default();
                see(&d);
                s = d;
            }
        }
    }
    see(&s);
    see(&other);
    // Not a leak for Miri to think about.
    for e in s {
        drop(e);
    }
    "done"
}

fn copied<T: Elem + Copy, const N: usize>(ch: &mut Chooser) -> &'static str {
    let mut s = make::<T, N>(ch.choose(N + 1), 2).unwrap();
    for _ in 0..2 {
        let n = ch.choose(N + 2);
        let items: Vec<T> = (0..n as u8).map(T::make).collect();
        s.copy_from_slice(&items);
        see(&s);
        see(&s.clone());
    }
    "done"
}

fn iter<T: Elem, const N: usize, const OPS: usize>(ch: &mut Chooser) -> &'static str {
    let s = make::<T, N>(ch.choose(N + 1), 2).unwrap();
    let mut it = s.into_iter();
    // Kept to the end, so that what is given away twice gets freed twice.
    let mut taken = Vec::new();
    let mut clones = Vec::new();
    for _ in 0..OPS {
        match ch.choose(10) {
            0 => break,
            1 => taken.extend(it.next()),
            2 => taken.extend(it.next_back()),
            3 => {
                let n = ch.choose(N + 2);
                if n > 0 && !T::COPY && n < it.len() {
                    // Gives the element away a second time: a known finding.
                    return "known";
                }
                taken.extend(it.nth(n));
            }
            4 => {
                let n = ch.choose(N + 2);
                taken.extend(it.nth_back(n));
            }
            5 => {
                let c = it.clone();
                see(&c.as_slice());
                clones.push(std::mem::replace(&mut it, c));
            }
            6 => {
                for e in it.as_mut_slice() {
                    e.alter();
                }
                it.as_mut().reverse();
                see(&it.as_ref());
            }
            7 => see(&(it.as_slice(), it.len(), it.size_hint())),
            8 => {
                CLONES.with(|c| c.set(ch.choose(N + 1) as u32));
                let r = catch_unwind(AssertUnwindSafe(|| it.clone()));
                CLONES.with(|c| c.set(u32::MAX));
                if let Ok(c) = r {
                    taken.extend(c);
                }
            }
            _ => {
                taken.extend(it.by_ref().last());
            }
        }
    }
    match ch.choose(3) {
        0 => taken.extend(it),
        1 => taken.extend(it.rev()),
        // Made of `nth`.
        _ if T::COPY => taken.extend(it.skip(1).step_by(2)),
        _ => see(&it.count()),
    }
    for c in clones {
        taken.extend(c);
    }
    see(&taken);
    "done"
}

const TEXTS: [&[u8]; 14] = [
    b"", b"a", b"ab", b"abc", "\u{e9}".as_bytes(), "a\u{e9}".as_bytes(), "\u{20ac}".as_bytes(), "\u{1f600}".as_bytes(), b"\xC3", b"a\xE2\x82", b"\xED\xA0\x80", b"\xF4\x90\x80\x80", b"\xC0\x80",
    b"a\xFF",
];

fn texts<const N: usize>(ch: &mut Chooser) -> &'static str {
    let t = *ch.pick(&TEXTS);
    let Some(s) = text::<N>(t, ch.choose(7)) else { return "refused" };
    see(&s);
    show(&s);
    "made"
}

fn text<const N: usize>(t: &[u8], made: usize) -> Option<SizedStr<N>> {
    if made == 0 {
        return SizedStr::from_utf8(t).ok();
    }
    let Ok(s) = std::str::from_utf8(t) else { return None };
    match made {
        1 => SizedStr::new(s).ok(),
        2 => s.parse().ok(),
        3 => SizedStr::try_from(s).ok(),
        4 => SizedStr::try_from(s.to_string()).ok(),
        5 => Some(s.chars().collect()),
        _ => SizedStr::try_from(s.chars().next()?).ok(),
    }
}

fn string<const N: usize, const OPS: usize>(ch: &mut Chooser) -> &'static str {
    let t = *ch.pick(&["", "a", "ab", "\u{e9}", "a\u{e9}", "\u{20ac}", "\u{1f600}"]);
    if t.len() > N {
        return "too long";
    }
    let mut s = text::<N>(t.as_bytes(), 1).unwrap();
    let mut other = SizedStr::<N>::default();
    for _ in 0..OPS {
        match ch.choose(14) {
            0 => break,
            1 => {
                let c = s.clone();
                other = std::mem::replace(&mut s, c);
            }
            2 => std::mem::swap(&mut s, &mut other),
            3 => {
                see(&s);
                see(&s.to_string());
                hashed(&s);
                see(&(s == other, s.cmp(&other), s.partial_cmp(&other), s < "a", s == "ab", s == String::new()));
            }
            4 => {
                for c in s.chars().rev() {
                    see(&c);
                }
                for c in s.char_indices() {
                    see(&c);
                }
            }
            5 => {
                s.as_mut_str().make_ascii_uppercase();
                AsMut::<str>::as_mut(&mut s).make_ascii_lowercase();
                BorrowMut::<str>::borrow_mut(&mut s).make_ascii_uppercase();
                s.make_ascii_lowercase();
                see(&(s.as_str(), s.as_bytes(), s.len(), s.capacity(), s.is_empty(), s.is_full()));
            }
            6 => {
                let i = ch.choose(N + 2);
                see(&&s[i..]);
            }
            7 => {
                let i = ch.choose(N + 2);
                s[..i].make_ascii_uppercase();
                see(&s);
            }
            8 => {
                let t = s.into_string();
                see(&t);
                s = t.parse().unwrap();
            }
            9 => {
                let t = s.into_boxed_str();
                see(&t);
                s = SizedStr::new(&t).unwrap();
            }
            10 => {
                let (buf, len) = s.into_raw_parts();
                see(&buf);
                // These are what it was made of.
                s = unsafe { SizedStr::from_raw_parts(buf, len) };
            }
            11 => {
                let b = s.into_bytes();
                see(&b);
                // As it was text before.
                s = unsafe { SizedStr::from_utf8_unchecked(&b) };
            }
            12 => {
                see(&(AsRef::<str>::as_ref(&s), AsRef::<[u8]>::as_ref(&s), AsRef::<std::ffi::OsStr>::as_ref(&s), AsRef::<std::path::Path>::as_ref(&s), Borrow::<str>::borrow(&s)));
                let t: String = s.clone().into();
                let b: Box<str> = s.clone().into();
                see(&(t, b));
            }
            _ => s = s.chars().rev().chain(other.chars()).collect(),
        }
    }
    see(&s);
    see(&other);
    "done"
}

fn slot<const CAP: usize, const OPS: usize>(ch: &mut Chooser) -> &'static str {
    let mut s = match ch.choose(3) {
        0 => Slot::<Vec<u8>>::with_capacity(CAP),
        1 => {
            let b: Box<[u8]> = vec![7; CAP].into();
            let p = Box::into_raw(b) as *mut u8;
            let n = ch.choose(CAP + 1);
            // Such memory and such a length are what is asked for.
            unsafe { Slot::from_raw_parts(p, CAP, n) }
        }
        _ => {
            let mut s = Slot::<u32>::new();
            s.write(0x01020304u32).unwrap();
            see(&(&s, s.read(), s.capacity()));
            let mut s = Slot::<[Heap; 2]>::default();
            let r = s.write([Heap(Box::new(1)), Heap(Box::new(0xF0))]);
            see(&(r.is_err(), &s[..]));
            see(s.as_mut_slice());
            s.write([Heap(Box::new(1)), Heap(Box::new(2))]).ok();
            see(&s.read().ok());
            return "fixed";
        }
    };
    for _ in 0..OPS {
        match ch.choose(11) {
            0 => break,
            1 => {
                let n = ch.choose(CAP + 1);
                let r = catch_unwind(AssertUnwindSafe(|| s.write(vec![1u8; n])));
                see(&r.is_ok());
            }
            2 => {
                let r = catch_unwind(AssertUnwindSafe(|| s.read()));
                see(&r.ok());
            }
            3 => {
                let n = ch.choose(CAP + 2);
                let r = catch_unwind(AssertUnwindSafe(|| s.set_len(n)));
                see(&r.is_ok());
            }
            4 => {
                let n = ch.choose(CAP + 1);
                // Within the capacity.
                unsafe { s.set_len_unchecked(n) };
            }
            5 => {
                let n = ch.choose(CAP + 2);
                let r = catch_unwind(AssertUnwindSafe(|| s.copy_from_slice(&vec![3; n])));
                see(&r.is_ok());
            }
            6 => see(&(s.as_slice(), s.len(), s.capacity(), s.is_empty(), s.is_full(), AsRef::<[u8]>::as_ref(&s), Borrow::<[u8]>::borrow(&s), s == [1, 0, 1][..], s == &[1, 0, 1][..])),
            7 => {
                for b in s.as_mut_slice() {
                    *b ^= 1;
                }
                AsMut::<[u8]>::as_mut(&mut s).reverse();
                BorrowMut::<[u8]>::borrow_mut(&mut s).fill(1);
            }
            8 => {
                let p = s.as_mut_ptr();
                // All bytes up to the capacity may be accessed.
                for i in 0..CAP {
                    unsafe { *p.add(i) = (i as u8) & 1 };
                }
                let p = s.as_ptr();
                see(&(0..CAP).map(|i| unsafe { *p.add(i) }).collect::<Vec<_>>());
            }
            9 => {
                let i = ch.choose(CAP + 2);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    s[i..].fill(2);
                    see(&&s[..i]);
                }));
                see(&r.is_ok());
            }
            _ => {
                s.iter_mut().for_each(|b| *b ^= 3);
                see(&s);
            }
        }
    }
    see(&s);
    "done"
}

fn input<const CAP: usize, const OPS: usize>(ch: &mut Chooser) -> &'static str {
    let n = ch.choose(CAP + 1);
    let data: Box<[u8]> = (0..n as u8).collect();
    let mut i = Input::new(&data);
    let mut kept: Vec<&[u8]> = Vec::new();
    for _ in 0..OPS {
        match ch.choose(3) {
            0 => break,
            1 => {
                let n = [0, 1, 2, 3, usize::MAX][ch.choose(5)];
                if let Ok(s) = i.read(n) {
                    kept.push(s);
                }
            }
            _ => {
                let mut b = vec![9; ch.choose(4)];
                see(&i.read_into(&mut b).is_ok());
                see(&b);
            }
        }
        see(&(i.position(), i.remaining(), i.capacity()));
    }
    drop(i);
    see(&kept);
    "done"
}

fn output<const CAP: usize, const OPS: usize>(ch: &mut Chooser) -> &'static str {
    let n = ch.choose(CAP + 1);
    let mut data: Box<[u8]> = vec![0xEE; n].into();
    let mut o = Output::new(&mut data);
    for _ in 0..OPS {
        match ch.choose(3) {
            0 => break,
            1 => {
                let b = vec![1; ch.choose(4)];
                see(&o.write(&b).is_ok());
            }
            _ => {
                see(&(o.as_slice(), AsRef::<[u8]>::as_ref(&o), Borrow::<[u8]>::borrow(&o), o == [1][..], o == &[1][..]));
                let p = o.as_ptr();
                // Initialised by whoever gave the buffer.
                see(&(0..n).map(|i| unsafe { *p.add(i) }).collect::<Vec<_>>());
            }
        }
        see(&(o.position(), o.remaining(), o.capacity()));
    }
    drop(o);
    see(&data);
    "done"
}

pub fn sections(deep: bool) -> Vec<(&'static str, Scenario)> {
    let mut out: Vec<(&'static str, Scenario)> = vec![
        ("slices of boxes made", made::<Heap, 3>),
        ("slices of wide made", made::<Wide, 2>),
        ("slices of no size made", made::<Zst, 2>),
        ("copied", copied::<Wide, 2>),
        ("copied bytes", copied::<u8, 3>),
        ("copied nothing", copied::<Zst, 2>),
        ("strings 0 made", texts::<0>),
        ("strings 2 made", texts::<2>),
        ("strings 4 made", texts::<4>),
    ];
    if deep {
        out.extend([
            ("slice of boxes", slice::<Heap, 2, 3> as Scenario),
            ("slice of no size", slice::<Zst, 2, 3>),
            ("slice of wide", slice::<Wide, 2, 3>),
            ("slice of bytes", slice::<u8, 3, 2>),
            ("empty slice", slice::<Heap, 0, 3>),
            ("iterator of boxes", iter::<Heap, 3, 4>),
            ("iterator of no size", iter::<Zst, 3, 3>),
            ("iterator of wide", iter::<Wide, 3, 3>),
            ("string 0", string::<0, 2>),
            ("string 2", string::<2, 3>),
            ("string 4", string::<4, 2>),
            ("slot 0", slot::<0, 4>),
            ("slot 2", slot::<2, 3>),
            ("slot 3", slot::<3, 3>),
            ("input", input::<4, 4>),
            ("output", output::<4, 4>),
        ]);
    } else {
        out.extend([
            ("slice of boxes", slice::<Heap, 2, 2> as Scenario),
            ("slice of no size", slice::<Zst, 1, 2>),
            ("slice of wide", slice::<Wide, 2, 2>),
            ("empty slice", slice::<Heap, 0, 2>),
            ("iterator of boxes", iter::<Heap, 3, 2>),
            ("iterator of no size", iter::<Zst, 2, 2>),
            ("iterator of wide", iter::<Wide, 2, 2>),
            ("string 0", string::<0, 1>),
            ("string 2", string::<2, 2>),
            ("string 4", string::<4, 1>),
            ("slot 0", slot::<0, 2>),
            ("slot 2", slot::<2, 2>),
            ("input", input::<2, 3>),
            ("output", output::<3, 3>),
        ]);
    }
    out
}
