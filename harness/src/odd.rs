//! Values in states that building them anew does not reach: ranges that have
//! been iterated over, collections with room to spare or after removals,
//! shared pointers with other owners, cells that are being read, maps with
//! other hashers. They compare equal to freshly built ones (other than the
//! iterated ranges) and must be encoded like them.

use crate::codec::hex;
use crate::cx::*;
use crate::{bad, ensure};
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use oct::{SizedSlice, SizedStr};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet, LinkedList};
use std::fmt::Debug;
use std::hash::{BuildHasher, BuildHasherDefault, Hasher};
use std::ops::RangeInclusive;
use std::rc::Rc;
use std::sync::{Arc, Mutex, RwLock};

/// Every value has the same hash.
#[derive(Default)]
pub struct Same;
impl Hasher for Same {
    fn write(&mut self, _: &[u8]) {}
    fn finish(&self) -> u64 { 0 }
}
/// Hashers that differ from one another: each is seeded by a counter.
#[derive(Default)]
pub struct Sum(u64);
impl Hasher for Sum {
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64) } }
    fn finish(&self) -> u64 { self.0 }
}
pub struct Seeded(u64);
impl Default for Seeded {
    fn default() -> Self {
        thread_local!(static N: Cell<u64> = const { Cell::new(0) });
        N.with(|n| { n.set(n.get() + 1); Seeded(n.get()) })
    }
}
impl BuildHasher for Seeded {
    type Hasher = Sum;
    fn build_hasher(&self) -> Sum { Sum(self.0) }
}

/// Bytes, decoded value and consumption of one value.
fn pass<T: Encode<Error: Debug> + Decode<Error: Debug>>(what: &str, v: &T) -> Result<(Vec<u8>, T), Bad> {
    let mut buf = vec![0x5a; 4096];
    let n = {
        let mut o = Output::new(&mut buf);
        match guard(|| v.encode(&mut o)) {
            Err(p) => bad!(format!("{what}: encoding panics"), "{p}"),
            Ok(Err(e)) => bad!(format!("{what}: encoding refused"), "{e:?}"),
            Ok(Ok(())) => o.position(),
        }
    };
    ensure!(buf[n..].iter().all(|b| *b == 0x5a), format!("{what}: written beyond the encoding"), "{}", hex(&buf[..n]));
    let mut i = Input::new(&buf);
    let got = match guard(|| T::decode(&mut i)) {
        Err(p) => bad!(format!("{what}: decoding panics"), "{p}"),
        Ok(Err(e)) => bad!(format!("{what}: decoding refused"), "{e:?}"),
        Ok(Ok(w)) => w,
    };
    ensure!(i.position() == n, format!("{what}: consumed"), "{} of {n} bytes", i.position());
    Ok((buf[..n].to_vec(), got))
}

/// `v` is in an unusual state and equal to `fresh`.
fn like<T: Encode<Error: Debug> + Decode<Error: Debug>>(what: &str, v: &T, fresh: &T, ordered: bool, same: impl Fn(&T, &T) -> bool) -> CaseResult {
    ensure!(same(v, fresh), "harness", "{what}");
    let (a, got) = pass(what, v)?;
    let (b, _) = pass(what, fresh)?;
    ensure!(same(&got, v), format!("{what}: different value"), "{} decodes to another value", hex(&a));
    ensure!(a.len() == b.len() && (!ordered || a == b), format!("{what}: bytes depend on the state"), "{} and {} for equal values", hex(&a), hex(&b));
    Ok("like the fresh value")
}

fn ranges<T: Clone + PartialOrd + Debug + Encode<Error: Debug> + Decode<Error: Debug>>(cx: &mut Cx, name: &str, bounds: &[(T, T)], steps: usize)
where RangeInclusive<T>: Iterator + DoubleEndedIterator + Encode<Error: Debug> + Decode<Error: Debug>,
{
    for (k, (a, b)) in bounds.iter().enumerate() {
        // Every word of front and back steps.
        for n in 0..=steps {
            for word in 0..1u32 << n {
                let mut r = RangeInclusive::new(a.clone(), b.clone());
                for i in 0..n { if word >> i & 1 == 0 { r.next(); } else { r.next_back(); } }
                cx.case((k * 1000 + n * 100) as u64 + word as u64, || format!("{name} {a:?}..={b:?} after {n} steps {word:b}"), |_| {
                    // The bounds of a used-up range are unspecified and may
                    // lie outside of what is encodable.
                    let (bytes, got) = match pass(name, &r) {
                        Err(e) if r.is_empty() && n > 0 && e.sig.ends_with("encoding refused") => return Ok("used up and refused"),
                        other => other?,
                    };
                    if got == r { return Ok(if n == 0 { "not iterated" } else { "iterated" }) }
                    // All that may differ is that the range is used up.
                    if got == RangeInclusive::new(r.start().clone(), r.end().clone()) {
                        bad!("RangeInclusive: exhaustion is lost", "{name} {r:?} is exhausted and decodes to {got:?}, which is not ({})", hex(&bytes))
                    }
                    bad!(format!("{name}: different value"), "{r:?} ({}) decodes to {got:?}", hex(&bytes))
                });
            }
        }
    }
}

/// All sections.
pub fn sections() -> Vec<Section> {
    let mut s = Vec::new();
    s.push(section("ranges that have been iterated over", |cx| {
        ranges(cx, "RangeInclusive<u8>", &[(0u8, 0), (3, 5), (254, 255), (5, 3)], 4);
        ranges(cx, "RangeInclusive<i32>", &[(-1i32, 1), (i32::MAX, i32::MAX)], 4);
        ranges(cx, "RangeInclusive<char>", &[('a', 'b'), ('\u{d7ff}', '\u{e000}')], 4);
        ranges(cx, "RangeInclusive<usize>", &[(65534usize, 65535)], 4);
    }));
    s.push(section("collections in unusual states", |cx| {
        for n in 0..6usize {
            for extra in [0usize, 1, 100] {
                let key = (n * 1000 + extra) as u64;
                let items: Vec<u16> = (0..n as u16).map(|i| i * 257).collect();
                cx.case(key, || format!("vector of {n} with room for {extra} more"), |_| {
                    let mut v = Vec::with_capacity(n + extra);
                    v.extend((0..extra).map(|i| i as u16));
                    v.clear();
                    v.extend_from_slice(&items);
                    like("Vec<u16>", &v, &items, true, |a, b| a == b)
                });
                cx.case(key + 10_000, || format!("string of {n} with room for {extra} more"), |_| {
                    let mut v = "x".repeat(n + extra);
                    v.truncate(n);
                    like("String", &v, &"x".repeat(n), true, |a, b| a == b)
                });
                cx.case(key + 20_000, || format!("list of {n} made of two, {extra}"), |_| {
                    for cut in 0..=n {
                        let mut v: LinkedList<u16> = items[..cut].iter().copied().collect();
                        let mut w: LinkedList<u16> = items[cut..].iter().copied().collect();
                        v.append(&mut w);
                        for _ in 0..extra.min(3) { v.push_front(9) }
                        for _ in 0..extra.min(3) { v.pop_front(); }
                        like("LinkedList<u16>", &v, &items.iter().copied().collect(), true, |a, b| a == b)?;
                    }
                    Ok("like the fresh value")
                });
                cx.case(key + 30_000, || format!("sized slice of {n} that was longer by {extra}"), |_| {
                    let mut v = SizedSlice::<u16, 8>::default();
                    v.copy_from_slice(&[0xffff; 8]);
                    v.copy_from_slice(&items);
                    like("SizedSlice<u16, 8>", &v, &SizedSlice::new(&items).unwrap(), true, |a, b| a == b)
                });
                cx.case(key + 40_000, || format!("sized string of {n} edited in place, {extra}"), |_| {
                    let mut v: SizedStr<8> = "X".repeat(n).parse().unwrap();
                    v.make_ascii_lowercase();
                    like("SizedStr<8>", &v, &"x".repeat(n).parse().unwrap(), true, |a, b| a == b)
                });
            }
        }
    }));
    s.push(section("maps and sets with other hashers and after removals", |cx| {
        fn each<S: BuildHasher + Default>(cx: &mut Cx, base: u64, name: &'static str) {
            for n in 0..9u16 {
                for gone in 0..=3u16 {
                    cx.case(base + n as u64 * 10 + gone as u64, || format!("map and set of {n} with {name} after {gone} removals"), |_| {
                        let mut m = HashMap::<u16, u16, S>::default();
                        let mut k = HashSet::<u16, S>::default();
                        for i in 0..n + gone { m.insert(i, i ^ 0xff); k.insert(i); }
                        for i in n..n + gone { m.remove(&i); k.remove(&i); }
                        let mut f = HashMap::<u16, u16, S>::default();
                        let mut g = HashSet::<u16, S>::default();
                        for i in (0..n).rev() { f.insert(i, i ^ 0xff); g.insert(i); }
                        like(&format!("HashMap with {name}"), &m, &f, false, |a, b| a == b)?;
                        like(&format!("HashSet with {name}"), &k, &g, false, |a, b| a == b)
                    });
                }
            }
        }
        each::<BuildHasherDefault<Same>>(cx, 0, "one hash for all");
        each::<BuildHasherDefault<Sum>>(cx, 1000, "a fixed hasher");
        each::<Seeded>(cx, 2000, "a seeded hasher");
        each::<std::collections::hash_map::RandomState>(cx, 3000, "the standard hasher");
    }));
    s.push(section("shared and borrowed values", |cx| {
        for n in 0..4usize {
            let items: Vec<u16> = (0..n as u16).collect();
            cx.case(n as u64, || format!("pointers with other owners, {n}"), |_| {
                let a = Rc::new(items.clone());
                let (_b, _w) = (a.clone(), Rc::downgrade(&a));
                like("Rc<Vec<u16>>", &a, &Rc::new(items.clone()), true, |a, b| a == b)?;
                ensure!(Rc::strong_count(&a) == 2 && Rc::weak_count(&a) == 1, "Rc: counts", "{} {}", Rc::strong_count(&a), Rc::weak_count(&a));
                let a = Arc::new(items.clone());
                let (_b, _w) = (a.clone(), Arc::downgrade(&a));
                like("Arc<Vec<u16>>", &a, &Arc::new(items.clone()), true, |a, b| a == b)?;
                ensure!(Arc::strong_count(&a) == 2 && Arc::weak_count(&a) == 1, "Arc: counts", "{} {}", Arc::strong_count(&a), Arc::weak_count(&a));
                Ok("like the fresh value")
            });
            cx.case(100 + n as u64, || format!("cells and locks that are being read, {n}"), |_| {
                let a = RefCell::new(items.clone());
                let (x, y) = (a.borrow(), a.borrow());
                like("RefCell<Vec<u16>>", &a, &RefCell::new(items.clone()), true, |a, b| *a.borrow() == *b.borrow())?;
                drop((x, y));
                ensure!(a.try_borrow_mut().is_ok(), "RefCell: left borrowed", "after encoding");
                let a = RwLock::new(items.clone());
                let x = a.read().unwrap();
                like("RwLock<Vec<u16>>", &a, &RwLock::new(items.clone()), true, |a, b| *a.read().unwrap() == *b.read().unwrap())?;
                drop(x);
                ensure!(a.try_write().is_ok(), "RwLock: left locked", "after encoding");
                let a = Mutex::new(items.clone());
                like("Mutex<Vec<u16>>", &a, &Mutex::new(items.clone()), true, |a, b| std::ptr::eq(a, b) || *a.lock().unwrap() == *b.lock().unwrap())?;
                ensure!(a.try_lock().is_ok(), "Mutex: left locked", "after encoding");
                Ok("like the fresh value")
            });
            cx.case(200 + n as u64, || format!("borrowed and owned clones on write, {n}"), |_| {
                let t = "é".repeat(n);
                let s: Cow<str> = Cow::Borrowed(&t);
                like("Cow<str>", &s, &Cow::Owned(t.clone()), true, |a, b| a == b)?;
                let i: Cow<[u16]> = Cow::Borrowed(&items);
                like("Cow<[u16]>", &i, &Cow::Owned(items.clone()), true, |a, b| a == b)
            });
        }
    }));
    s
}
