//! C15: comparison, order, hashing and look-up by contents.

use oct::encode::Output;
use oct::{SizedSlice, SizedStr, Slot};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};
use vh::cx::*;
use vh::subj::FixHash;
use vh::ensure;

// ---- Hashers ----

/// Notes every call, so that nothing can collide.
#[derive(Default)]
struct Notes(Vec<u8>);
impl Hasher for Notes {
    fn finish(&self) -> u64 { fp_of(&self.0) }
    fn write(&mut self, b: &[u8]) { self.0.push(0xff); self.0.extend_from_slice(&(b.len() as u32).to_le_bytes()); self.0.extend_from_slice(b) }
    fn write_u8(&mut self, v: u8) { self.0.extend_from_slice(&[1, v]) }
    fn write_u16(&mut self, v: u16) { self.0.push(2); self.0.extend_from_slice(&v.to_le_bytes()) }
    fn write_u32(&mut self, v: u32) { self.0.push(4); self.0.extend_from_slice(&v.to_le_bytes()) }
    fn write_u64(&mut self, v: u64) { self.0.push(8); self.0.extend_from_slice(&v.to_le_bytes()) }
    fn write_usize(&mut self, v: usize) { self.0.push(9); self.0.extend_from_slice(&v.to_le_bytes()) }
}
fn notes<T: Hash + ?Sized>(v: &T) -> Vec<u8> { let mut h = Notes::default(); v.hash(&mut h); h.0 }
/// Everything collides.
#[derive(Default, Clone)]
struct Same;
impl Hasher for Same { fn finish(&self) -> u64 { 0 } fn write(&mut self, _: &[u8]) {} }

// ---- Sized slices ----

trait Elem: Clone + Debug + PartialEq + PartialOrd + 'static { fn letters() -> Vec<Self>; }
macro_rules! elem { ($($t:ty: $($e:expr),*;)*) => { $( impl Elem for $t { fn letters() -> Vec<Self> { vec![$($e),*] } } )* } }
/// Equal when the first part is.
#[derive(Clone, Debug)]
struct Loose(u8, #[allow(dead_code)] u8);
impl PartialEq for Loose { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Eq for Loose {}
impl PartialOrd for Loose { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Loose { fn cmp(&self, o: &Self) -> Ordering { o.0.cmp(&self.0) } }
impl Hash for Loose { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
fn short(s: &str, filler: char) -> SizedStr<3> { text(s, Some(filler)) }
fn few(s: &[u8], filler: u8) -> SizedSlice<u8, 2> {
    let mut f: SizedSlice<u8, 2> = s.iter().copied().chain(std::iter::repeat(filler)).take(2).collect();
    unsafe { f.set_len(s.len()) };
    f
}
elem! {
    u8: 0, 1, 255; i8: -1, 0, 127; u16: 0x00ff, 0x0100, 0; i32: i32::MIN, 0, 256; bool: false, true; char: 'a', '\u{10000}', '\u{ffff}'; (): ();
    f32: 0.0, -0.0, f32::NAN, 1.5; String: String::new(), "a".into(), "ab".into(); Loose: Loose(0, 1), Loose(0, 2), Loose(1, 1); Option<u8>: None, Some(0), Some(9);
    SizedStr<3>: short("", 'x'), short("a", 'x'), short("a", 'y'), short("ab", 'z'); SizedSlice<u8, 2>: few(&[], 1), few(&[1], 0), few(&[1], 7), few(&[1, 0], 0);
}

fn words<T: Elem>(letters: usize, max: usize) -> Vec<Vec<T>> {
    let l: Vec<T> = T::letters().into_iter().take(letters).collect();
    let mut out = vec![vec![]];
    let mut i = 0;
    while i < out.len() {
        if out[i].len() < max { for x in &l { let mut w: Vec<T> = out[i].clone(); w.push(x.clone()); out.push(w) } }
        i += 1;
    }
    out
}
/// The same contents, with different things in the unused space.
fn build<T: Elem, const N: usize>(w: &[T], way: usize) -> SizedSlice<T, N> {
    if way == 0 { return SizedSlice::new(w).unwrap() }
    let l = T::letters();
    let filler = l[way % l.len()].clone();
    let mut s: SizedSlice<T, N> = w.iter().cloned().chain(std::iter::repeat(filler)).take(N).collect();
    unsafe { s.set_len(w.len()) };
    s
}
/// What all six operators and the method say.
macro_rules! ops { ($a:expr, $b:expr) => { { let (a, b) = (&$a, &$b); (*a == *b, *a != *b, *a < *b, *a <= *b, *a > *b, *a >= *b, a.partial_cmp(b)) } } }

fn pair<T: Elem, const N: usize, const M: usize>(cx: &mut Cx, v: &[T], w: &[T], ways: (usize, usize)) {
    let what = |v: &dyn Debug, w: &dyn Debug| format!("{v:?} in {N} and {w:?} in {M}, unused space {ways:?}");
    cx.case(fp_of(&(N, M, format!("{v:?}"), format!("{w:?}"), ways)), || what(&v, &w), |_| {
        let a: SizedSlice<T, N> = build(v, ways.0);
        let want = ops!(*v, *w);
        if w.len() <= M {
            let b: SizedSlice<T, M> = build(w, ways.1);
            let got = ops!(a, b);
            ensure!(got == want, "SizedSlice with SizedSlice", "{got:?} instead of {want:?}");
            std::mem::forget(b);
        }
        let got = ops!(a, w);
        ensure!(got == want, "SizedSlice with slice", "{got:?} instead of {want:?}");
        let x: Vec<T> = w.to_vec();
        let got = ops!(a, x);
        ensure!(got == want, "SizedSlice with Vec", "{got:?} instead of {want:?}");
        macro_rules! array { ($($k:literal),*) => { match w.len() { $( $k => { let x: &[T; $k] = w.try_into().unwrap(); let got = ops!(a, *x); ensure!(got == want, "SizedSlice with array", "{got:?} instead of {want:?}") } )* _ => {} } } }
        array!(0, 1, 2, 3, 4, 5);
        // Through the views.
        let got = (*a == *w, (*a).partial_cmp(w), AsRef::<[T]>::as_ref(&a) == w, Borrow::<[T]>::borrow(&a) == w);
        ensure!(got == (want.0, want.6, want.0, want.0), "view of SizedSlice", "{got:?}");
        std::mem::forget(a);
        Ok(match want.6 { Some(Ordering::Less) => "less", Some(Ordering::Equal) => "equal", Some(Ordering::Greater) => "greater", None => "unordered" })
    });
    cx.transitions += 1;
}
fn pairs<T: Elem, const N: usize, const M: usize>(cx: &mut Cx) {
    for (letters, max) in if cx.thorough { vec![(4, 4), (3, 5), (2, 7)] } else { vec![(4, 3), (3, 4), (2, 5)] } {
        let ws = words::<T>(letters, max);
        // Unused space differs only if there is some.
        let ways: &[(usize, usize)] = if letters == 2 { &[(1, 2)] } else { &[(0, 0), (1, 2), (2, 1), (1, 1)] };
        for v in ws.iter().filter(|v| v.len() <= N) { for w in &ws { for way in ways { pair::<T, N, M>(cx, v, w, *way) } } }
    }
}

/// Order and hashing within one capacity.
fn keyed<T: Elem + Ord + Hash, const N: usize>(cx: &mut Cx) {
    let ws: Vec<Vec<T>> = words::<T>(4, 3).into_iter().filter(|w| w.len() <= N).collect();
    for (i, v) in ws.iter().enumerate() { for way in 0..3 {
        cx.case(fp_of(&(N, i, way, "hash")), || format!("hash of {v:?} in {N}, unused space {way}"), |_| {
            let a: SizedSlice<T, N> = build(v, way);
            ensure!(notes(&a) == notes(&v[..]), "hash of SizedSlice", "");
            ensure!(notes(&a) == notes(Borrow::<[T]>::borrow(&a)), "hash of SizedSlice", "");
            ensure!(notes(&[a]) == notes(&[&v[..]]), "hash of SizedSlice within an array", "");
            let b = BuildHasherDefault::<DefaultHasher>::default();
            ensure!(b.hash_one(build::<T, N>(v, way)) == b.hash_one(&v[..]), "hash of SizedSlice", "");
            ensure!(b.hash_one((build::<T, N>(v, way), 7u8)) == b.hash_one((&v[..], 7u8)), "hash of SizedSlice within a tuple", "");
            let mut h = DefaultHasher::new();
            Hash::hash_slice(&[build::<T, N>(v, way), build::<T, N>(v, 1)], &mut h);
            let mut g = DefaultHasher::new();
            Hash::hash_slice(&[&v[..], &v[..]], &mut g);
            ensure!(h.finish() == g.finish(), "hash of SizedSlice", "");
            Ok("hashed")
        });
    } }
    for (i, v) in ws.iter().enumerate() { for (j, w) in ws.iter().enumerate() {
        cx.case(fp_of(&(N, i, j, "cmp")), || format!("order of {v:?} and {w:?} in {N}"), |_| {
            let (a, b): (SizedSlice<T, N>, SizedSlice<T, N>) = (build(v, 1), build(w, 2));
            let want = v.cmp(w);
            ensure!(a.cmp(&b) == want && b.cmp(&a) == want.reverse(), "order of SizedSlice", "{:?} instead of {want:?}", a.cmp(&b));
            ensure!((want == Ordering::Equal) == (a == b), "order of SizedSlice and equality", "");
            let mk = || (build::<T, N>(v, 1), build::<T, N>(w, 2));
            let (x, y) = mk();
            ensure!(x.max(y)[..] == *v.max(w), "max of SizedSlice", "");
            let (x, y) = mk();
            ensure!(x.min(y)[..] == *v.min(w), "min of SizedSlice", "");
            if i < j { // Order against all others.
                for u in &ws {
                    let (lo, hi) = if v <= w { (v, w) } else { (w, v) };
                    let c = build::<T, N>(u, 0).clamp(build(lo, 1), build(hi, 2));
                    ensure!(c[..] == *u.clamp(lo, hi), "clamp of SizedSlice", "{u:?}");
                }
            }
            Ok(if want == Ordering::Equal { "equal" } else { "ordered" })
        });
        cx.transitions += 1;
    } }
    cx.case(fp_of(&(N, "sort")), || format!("all sorted in {N}"), |_| {
        let mut a: Vec<SizedSlice<T, N>> = ws.iter().rev().map(|w| build(w, 1)).collect();
        let mut b: Vec<Vec<T>> = ws.iter().rev().cloned().collect();
        a.sort();
        b.sort();
        ensure!(a.iter().map(|x| &x[..]).eq(b.iter().map(|x| &x[..])), "SizedSlices sorted", "");
        a.dedup();
        b.dedup();
        ensure!(a.len() == b.len(), "SizedSlices sorted", "");
        for w in &ws {
            ensure!(a.binary_search_by(|x| x[..].cmp(&w[..])) == b.binary_search(w), "SizedSlices searched", "{w:?}");
            ensure!(a.binary_search(&build(w, 2)) == b.binary_search(w), "SizedSlices searched", "{w:?}");
            ensure!(a.contains(&build(w, 2)) == b.contains(w), "SizedSlices searched", "{w:?}");
        }
        Ok("sorted")
    });
}
/// All sets of up to three keys and look-ups of everything by slice.
fn lookups<T: Elem + Ord + Hash, const N: usize>(cx: &mut Cx) {
    let ws: Vec<Vec<T>> = words::<T>(4, 3).into_iter().filter(|w| w.len() <= N).collect();
    let keys: Vec<usize> = (0..ws.len().min(if cx.thorough { 40 } else { 22 })).collect();
    let n = keys.len();
    for i in 0..n { for j in i..n { for k in j..n {
        if (i == j || j == k) && !(i == j && j == k || i == j) { continue }
        cx.case(fp_of(&(N, i, j, k)), || format!("keys {:?} {:?} {:?} in {N}", ws[i], ws[j], ws[k]), |_| {
            fn all<S: BuildHasher + Default, T: Elem + Ord + Hash, const N: usize>(keys: &[&Vec<T>], ws: &[Vec<T>]) -> Result<usize, Bad> {
                let mut m: HashMap<SizedSlice<T, N>, usize, S> = HashMap::default();
                let mut b: BTreeMap<SizedSlice<T, N>, usize> = BTreeMap::new();
                let mut want: BTreeMap<Vec<T>, usize> = BTreeMap::new();
                for (i, k) in keys.iter().enumerate() {
                    let o = want.insert(k.to_vec(), i);
                    ensure!(m.insert(build(k, i), i) == o && b.insert(build(k, i + 1), i) == o, "insertion by SizedSlice", "{k:?}");
                }
                ensure!(m.len() == want.len() && b.len() == want.len(), "number of entries", "");
                for w in ws {
                    let x = want.get(w);
                    ensure!(m.get(&w[..]) == x && m.contains_key(&w[..]) == x.is_some(), "HashMap looked up by slice", "{w:?}");
                    ensure!(m.get(&build::<T, N>(w, 2)) == x, "HashMap looked up by SizedSlice", "{w:?}");
                    ensure!(b.get(&w[..]) == x, "BTreeMap looked up by slice", "{w:?}");
                    ensure!(b.get(&build::<T, N>(w, 2)) == x, "BTreeMap looked up by SizedSlice", "{w:?}");
                    ensure!(b.range::<[T], _>((std::ops::Bound::Included(&w[..]), std::ops::Bound::Unbounded)).count() == want.range(w.clone()..).count(), "BTreeMap range by slice", "{w:?}");
                }
                ensure!(b.keys().map(|k| &k[..]).eq(want.keys().map(|k| &k[..])), "BTreeMap order", "");
                let hs: HashSet<SizedSlice<T, N>, S> = keys.iter().map(|k| build(k, 1)).collect();
                let bs: BTreeSet<SizedSlice<T, N>> = keys.iter().map(|k| build(k, 2)).collect();
                ensure!(ws.iter().all(|w| hs.contains(&w[..]) == want.contains_key(w) && bs.contains(&w[..]) == want.contains_key(w)), "sets looked up by slice", "");
                for k in keys {
                    let x = want.remove(*k);
                    ensure!(m.remove(&k[..]) == x && b.remove(&k[..]) == x, "removal by slice", "{k:?}");
                    ensure!(m.len() == want.len() && b.len() == want.len(), "number of entries", "");
                }
                Ok(m.len())
            }
            let ks = [&ws[i], &ws[j], &ws[k]];
            all::<BuildHasherDefault<FixHash>, T, N>(&ks, &ws)?;
            all::<BuildHasherDefault<DefaultHasher>, T, N>(&ks, &ws)?;
            all::<BuildHasherDefault<Same>, T, N>(&ks, &ws)?;
            Ok("found")
        });
        cx.transitions += 3;
    } } }
}
/// With elements of two types.
fn mixed(cx: &mut Cx) {
    let strs = ["", "a", "ab"];
    let ws: Vec<Vec<&'static str>> = { let mut v = vec![vec![]]; for i in strs { v.push(vec![i]); for j in strs { v.push(vec![i, j]); for k in strs { v.push(vec![i, j, k]) } } } v };
    for v in &ws { for w in &ws {
        cx.case(fp_of(&(v, w)), || format!("{v:?} and {w:?}"), |_| {
            let a: SizedSlice<String, 3> = v.iter().map(|s| s.to_string()).collect();
            let b: SizedSlice<&str, 4> = w.iter().copied().collect();
            let want = v == w;
            let owned: Vec<String> = w.iter().map(|s| s.to_string()).collect();
            ensure!((a == b) == want && (b == a) == want && (a != b) != want, "SizedSlices of two types", "");
            ensure!((a == &w[..]) == want && (a == w.to_vec()) == want && (b == &owned[..]) == (b.len() == owned.len() && want || b == owned), "SizedSlice with slices of another type", "");
            if let Ok(x) = <[&str; 2]>::try_from(&w[..]) { ensure!((a == x) == want, "SizedSlice with array of another type", ""); }
            let _ = a.into_vec();
            Ok(if want { "equal" } else { "different" })
        });
    } }
}
/// Long contents that differ in one place or in length.
fn long(cx: &mut Cx) {
    for n in [1usize, 7, 8, 9, 15, 16, 17, 63, 64, 65, 255, 256, 257, 300] {
        let v: Vec<u8> = (0..n).map(|i| (i * 7 + 3) as u8).collect();
        for k in 0..=n + 1 { for d in [1u8, 0x80] {
            let mut w = v.clone();
            match k { k if k < n => w[k] ^= d, k if k == n => { w.truncate(n - 1) } _ => w.push(d) }
            cx.case(fp_of(&(n, k, d)), || format!("{n} octets, changed at {k} by {d}"), |_| {
                let a: SizedSlice<u8, 300> = build(&v, 1);
                let want = ops!(v[..], w[..]);
                if w.len() <= 400 { let b: SizedSlice<u8, 400> = build(&w, 2); ensure!(ops!(a, b) == want && ops!(b, a) == ops!(w[..], v[..]), "long SizedSlices", ""); ensure!((notes(&a) == notes(&b)) == (v == w), "hash of long SizedSlices", ""); }
                ensure!(ops!(a, &w[..]) == want && ops!(a, w) == want, "long SizedSlice with slice", "");
                if let (Ok(s), Ok(t)) = (String::from_utf8(v.clone()), String::from_utf8(w.clone())) {
                    let x = SizedStr::<300>::new(&s).unwrap();
                    ensure!(ops!(x, &t[..]) == want, "long SizedStr with str", "");
                }
                slot_cmp(&v, &w, 3)?;
                output_cmp(&v, &w, 2, 5)?;
                Ok("different")
            });
        } }
    }
}

// ---- Sized strings ----

fn text<const N: usize>(s: &str, filler: Option<char>) -> SizedStr<N> {
    match filler {
        None => SizedStr::new(s).unwrap(),
        Some(c) => {
            let rest: String = std::iter::repeat(c).take(N).collect();
            let mut b = [0u8; N];
            for (d, c) in b.iter_mut().zip(s.bytes().chain(rest.bytes())) { *d = c }
            unsafe { SizedStr::from_raw_parts(b, s.len()) }
        }
    }
}
fn texts(max: usize) -> Vec<String> {
    let letters = ["\0", "a", "Z", "é", "\u{ffff}", "\u{10000}"];
    let mut out = vec![String::new()];
    let mut i = 0;
    while i < out.len() {
        if out[i].chars().count() < max { for l in letters { let w = out[i].clone() + l; out.push(w) } }
        i += 1;
    }
    out
}
/// Texts that differ only in what a folding or trimming comparison ignores.
fn near(max: usize) -> Vec<String> {
    let letters = ["a", "A", " ", "\t", "\n", "\r", "\0", "\u{a0}", "\u{7f}", "é", "e\u{301}", "É", "ß", "ss", "\u{feff}", "\u{3000}", "1", "10", "9"];
    let mut out = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        while from < to { for l in letters { let w = out[from].clone() + l; out.push(w) } from += 1 }
    }
    out.sort();
    out.dedup();
    out
}
fn strs<const N: usize, const M: usize>(cx: &mut Cx) {
    let deep = cx.thorough;
    strs_of::<N, M>(cx, texts(if deep { 4 } else { 3 }), "");
    strs_of::<N, M>(cx, near(2), "near ");
}
fn strs_of<const N: usize, const M: usize>(cx: &mut Cx, ws: Vec<String>, kind: &str) {
    let fillers = [None, Some('a'), Some('\u{10000}')];
    for v in ws.iter().filter(|v| v.len() <= N) { for w in &ws { for (f, g) in [(0, 0), (1, 2), (2, 1)] {
        cx.case(fp_of(&(N, M, v, w, f, kind)), || format!("{kind}{v:?} in {N} and {w:?} in {M}, unused space {f}"), |_| {
            let a: SizedStr<N> = text(v, fillers[f]);
            let want = ops!(v[..], w[..]);
            if w.len() <= M {
                let b: SizedStr<M> = text(w, fillers[g]);
                let got = ops!(a, b);
                ensure!(got == want, "SizedStr with SizedStr", "{got:?} instead of {want:?}");
            }
            let got = ops!(a, &w[..]);
            ensure!(got == want, "SizedStr with str", "{got:?} instead of {want:?}");
            let got = ops!(a, *w);
            ensure!(got == want, "SizedStr with String", "{got:?} instead of {want:?}");
            ensure!((*a == **w) == want.0 && (Borrow::<str>::borrow(&a) == w) == want.0 && (AsRef::<[u8]>::as_ref(&a) == w.as_bytes()) == want.0, "view of SizedStr", "");
            if N == M && w.len() <= N {
                let b: SizedStr<N> = text(w, fillers[g]);
                ensure!(a.cmp(&b) == v.cmp(w) && (a.cmp(&b) == Ordering::Equal) == (a == b), "order of SizedStr", "{:?}", a.cmp(&b));
                ensure!((notes(&a) == notes(&b)) == want.0, "hash of SizedStr", "");
                ensure!(a.max(b).as_str() == v.max(w), "max of SizedStr", "");
            }
            ensure!(notes(&a_of::<N>(v, fillers[f])) == notes(&v[..]), "hash of SizedStr", "");
            Ok(match want.6 { Some(Ordering::Less) => "less", Some(Ordering::Equal) => "equal", _ => "greater" })
        });
        cx.transitions += 1;
    } } }
}
fn a_of<const N: usize>(v: &str, f: Option<char>) -> SizedStr<N> { text(v, f) }
fn str_lookups<const N: usize>(cx: &mut Cx) {
    str_lookups_of::<N>(cx, texts(2), "");
    str_lookups_of::<N>(cx, near(1).into_iter().flat_map(|w| [w.clone(), w.clone() + "a", "a".to_owned() + &w]).collect(), "near ");
}
fn str_lookups_of<const N: usize>(cx: &mut Cx, mut ws: Vec<String>, kind: &str) {
    ws.retain(|w| w.len() <= N);
    ws.sort();
    ws.dedup();
    let n = ws.len();
    for i in 0..n { for j in i + 1..n { for k in 0..n {
        if !cx.thorough && (i + j + k) % 4 != 0 && k > 6 { continue }
        cx.case(fp_of(&(N, i, j, k, kind)), || format!("{kind}keys {:?} {:?} {:?} in {N}", ws[i], ws[j], ws[k]), |_| {
            let ks = [&ws[i], &ws[j], &ws[k]];
            fn all<S: BuildHasher + Default, const N: usize>(ks: &[&String], ws: &[String]) -> Result<(), Bad> {
                let mut m: HashMap<SizedStr<N>, usize, S> = HashMap::default();
                let mut b: BTreeMap<SizedStr<N>, usize> = BTreeMap::new();
                let mut want: BTreeMap<String, usize> = BTreeMap::new();
                for (i, k) in ks.iter().enumerate() {
                    let o = want.insert(k.to_string(), i);
                    ensure!(m.insert(text(k, None), i) == o && b.insert(text(k, Some('a')), i) == o, "insertion by SizedStr", "{k:?}");
                }
                for w in ws {
                    let x = want.get(w);
                    ensure!(m.get(&w[..]) == x && b.get(&w[..]) == x && m.get(&text::<N>(w, Some('a'))) == x && b.get(&text::<N>(w, None)) == x, "map looked up by str", "{w:?}");
                }
                ensure!(b.keys().map(|k| k.as_str()).eq(want.keys().map(|k| k.as_str())), "BTreeMap order", "");
                for k in ks { let x = want.remove(*k); ensure!(m.remove(&k[..]) == x && b.remove(&k[..]) == x, "removal by str", "{k:?}"); }
                ensure!(m.is_empty() && b.is_empty(), "number of entries", "");
                Ok(())
            }
            all::<BuildHasherDefault<DefaultHasher>, N>(&ks, &ws)?;
            all::<BuildHasherDefault<Same>, N>(&ks, &ws)?;
            Ok("found")
        });
        cx.transitions += 2;
    } } }
}

// ---- Slots and streams ----

fn slot_cmp(v: &[u8], w: &[u8], extra: usize) -> Result<(), Bad> {
    let mut s = Slot::<u8>::with_capacity(v.len() + extra);
    s.set_len(v.len() + extra);
    for (i, b) in s.as_mut_slice().iter_mut().enumerate() { *b = v.get(i).copied().unwrap_or(if i >= v.len() { w.get(i).copied().unwrap_or(9) } else { 0 }) }
    s.set_len(v.len());
    let mut w2 = w.to_vec();
    let want = v == w;
    ensure!((s == *w) == want && (s != *w) != want, "Slot with [u8]", "");
    ensure!((s == w) == want && (s != w) != want, "Slot with &[u8]", "");
    ensure!((s == &mut w2[..]) == want && (s != &mut w2[..]) != want, "Slot with &mut [u8]", "");
    ensure!((*s == *w) == want && (Borrow::<[u8]>::borrow(&s) == w) == want && (AsRef::<[u8]>::as_ref(&s) == w) == want && (*s).cmp(w) == v.cmp(w), "view of Slot", "");
    ensure!(notes(Borrow::<[u8]>::borrow(&s)) == notes(v), "view of Slot", "");
    Ok(())
}
fn output_cmp(v: &[u8], w: &[u8], extra_v: usize, extra_w: usize) -> Result<(), Bad> {
    let want = v == w;
    // Unused space that looks like the rest of the other one, and not.
    for fill in [0u8, 0xff, w.get(v.len()).copied().unwrap_or(7)] {
        let mut bv = vec![fill; v.len() + extra_v];
        let mut bw = vec![!fill; w.len() + extra_w];
        if fill == 0xff { for (i, b) in bv.iter_mut().enumerate() { *b = w.get(i).copied().unwrap_or(1) } }
        let mut a = Output::new(&mut bv);
        let mut b = Output::new(&mut bw);
        // In pieces.
        for c in v.chunks(2) { a.write(c).map_err(|e| Bad::new("Output refuses", e.to_string()))? }
        for c in w.chunks(3) { b.write(c).map_err(|e| Bad::new("Output refuses", e.to_string()))? }
        ensure!((a == b) == want && (b == a) == want && (a != b) != want, "Output with Output", "");
        ensure!(a == a && b == b, "Output with itself", "");
        let mut w2 = w.to_vec();
        ensure!((a == *w) == want && (a != *w) != want, "Output with [u8]", "");
        ensure!((a == w) == want && (a != w) != want, "Output with &[u8]", "");
        ensure!((a == &mut w2[..]) == want && (a != &mut w2[..]) != want, "Output with &mut [u8]", "");
        ensure!((Borrow::<[u8]>::borrow(&a) == w) == want && (AsRef::<[u8]>::as_ref(&a) == w) == want, "view of Output", "");
    }
    Ok(())
}
fn slots(cx: &mut Cx) {
    let ws = words::<u8>(3, if cx.thorough { 5 } else { 4 });
    for v in &ws { for w in &ws { for extra in [0, 1, 3] {
        cx.case(fp_of(&(v, w, extra)), || format!("slot and stream with {v:?} and {extra} unused, and {w:?}"), |_| {
            slot_cmp(v, w, extra)?;
            output_cmp(v, w, extra, (extra * 2) % 5)?;
            Ok(if v == w { "equal" } else { "different" })
        });
        cx.transitions += 1;
    } } }
}

fn main() {
    run(|| {
        let mut s = Vec::new();
        macro_rules! caps { ($t:ty: $($n:literal $m:literal),*) => { $( s.push(section(format!("{} in {} and {}", stringify!($t).replace(' ', ""), $n, $m), |cx| pairs::<$t, $n, $m>(cx))); )* } }
        macro_rules! each { ($($t:ty),*) => { $( caps!($t: 0 0, 0 3, 3 0, 2 5, 3 3, 3 2, 5 3, 5 5, 5 7); )* } }
        each!(u8, i8, u16, i32, bool, char, (), f32, String, Loose, Option<u8>, SizedStr<3>, SizedSlice<u8, 2>);
        macro_rules! keys { ($($t:ty),*) => { $( s.push(section(format!("order and hash of {}", stringify!($t).replace(' ', "")), |cx| { keyed::<$t, 0>(cx); keyed::<$t, 2>(cx); keyed::<$t, 3>(cx); keyed::<$t, 6>(cx) })); s.push(section(format!("look-up of {}", stringify!($t).replace(' ', "")), |cx| { lookups::<$t, 0>(cx); lookups::<$t, 3>(cx); lookups::<$t, 4>(cx) })); )* } }
        keys!(u8, i8, u16, i32, bool, char, (), String, Loose, Option<u8>, SizedStr<3>, SizedSlice<u8, 2>);
        s.push(section("two element types", mixed));
        s.push(section("long contents", long));
        macro_rules! txt { ($($n:literal $m:literal),*) => { $( s.push(section(format!("strings in {} and {}", $n, $m), |cx| strs::<$n, $m>(cx))); )* } }
        txt!(0 0, 0 4, 1 3, 3 1, 4 4, 5 9, 9 5, 9 9, 12 12);
        s.push(section("look-up of strings in 3", |cx| str_lookups::<3>(cx)));
        s.push(section("look-up of strings in 4", |cx| str_lookups::<4>(cx)));
        s.push(section("look-up of strings in 8", |cx| str_lookups::<8>(cx)));
        s.push(section("slots and streams", slots));
        s
    });
}
