//! C13: ownership of elements and of memory, with failures at every point.

use oct::decode::{Decode, Input};
use oct::{SizedIter, SizedSlice, SizedStr, Slot};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::LinkedList;
use std::ffi::CString;
use std::marker::PhantomData;
use std::ops::{Bound, Range, RangeFrom, RangeInclusive, RangeTo, RangeToInclusive};
use std::rc::Rc;
use std::sync::{Arc, Mutex, RwLock};
use vh::bfs::{tree, Sys};
use vh::codec::{bounds, encode_real, hex, sequences};
use vh::cx::*;
use vh::gen::{late_places, values};
use vh::ledger::{self, watch, Kind, Memory, Own, D, W, Z};
use vh::model::*;
use vh::reg;
use vh::subj::{list, Map, Set, Sub};
use vh::{bad, ensure};

#[global_allocator]
static BOOKS: ledger::Books = ledger::Books;

const SLICE_LEAKS: &str = "SizedSlice does not drop its elements";
const ITER_LEAKS: &str = "SizedIter does not drop the remaining elements";
const NTH_TWICE: &str = "SizedIter::nth gives an element away twice";

/// What is known to be wrong, as far as the library still does it.
#[derive(Clone, Copy)]
struct Faults { slice: bool, iter: bool, nth: bool }
fn faults() -> Faults {
    let kept = |f: &dyn Fn(SizedSlice<D, 2>)| {
        ledger::reset(None);
        f([D::fresh(), D::fresh()].into());
        ledger::with(|l| l.drops.iter().all(|d| *d == 0))
    };
    let slice = kept(&|s| drop(s));
    let iter = kept(&|s| drop(s.into_iter()));
    ledger::reset(None);
    let mut i = SizedSlice::from([1u8, 2, 3]).into_iter();
    i.nth(1);
    Faults { slice, iter, nth: i.len() == 2 }
}

fn memory(m: &Memory, may_leak: bool) -> Result<(), Bad> {
    ensure!(m.wrong.is_empty(), m.wrong[0], "{:?}", m.wrong);
    ensure!(m.lost == 0, "harness: too many allocations", "{}", m.lost);
    ensure!(may_leak || m.live == 0, "memory leaks", "{} of {} allocations live", m.live, m.allocs);
    Ok(())
}

// ---- Decoding ----

trait Derived { type S; type E; }
macro_rules! derived { ($($m:ident $x:ty;)*) => { $( mod $m {
    use super::*;
    #[derive(oct::decode::Decode)]
    #[allow(dead_code)]
    pub struct DS { a: $x, b: u16, c: Vec<$x>, d: $x }
    #[derive(oct::decode::Decode)]
    #[allow(dead_code)]
    pub enum DE { A($x, $x), B { x: [$x; 2], y: Box<$x> }, C }
    impl Derived for $x { type S = DS; type E = DE; }
    // Only what they look like is needed.
    impl Sub for DS {
        fn ty() -> Ty { Ty::Struct(vec![u8::ty(), u16::ty(), <Vec<u8>>::ty(), u8::ty()]) }
        fn build(_: &Val) -> Self { unreachable!() }
        fn val(&self) -> Val { unreachable!() }
    }
    impl Sub for DE {
        fn ty() -> Ty { Ty::Enum(Box::new(Ty::Isize), vec![(0, vec![u8::ty(), u8::ty()]), (1, vec![<[u8; 2]>::ty(), u8::ty()]), (2, vec![])]) }
        fn build(_: &Val) -> Self { unreachable!() }
        fn val(&self) -> Val { unreachable!() }
    }
} )* } }
derived!(of_u8 u8; of_d D; of_w W; of_z Z;);
type DS<X> = <X as Derived>::S;
type DE<X> = <X as Derived>::E;

/// Long values of lists, about the sizes 16, 32 and 256.
fn long(t: &Ty) -> Vec<Val> {
    let lens = |c: Option<usize>| [17usize, 33, 40, 300].into_iter().filter(move |n| c.is_none_or(|c| c >= *n));
    let some = |t: &Ty, n: usize| -> Val { let s = small(t); Val::L((0..n).map(|i| s[(i * 5 + i / 7) % s.len()].clone()).collect()) };
    match t {
        Ty::Arr(t, n) if *n > 8 => vec![some(t, *n)],
        Ty::Seq(t, c) => lens(*c).map(|n| some(t, n)).collect(),
        Ty::Map(..) => lens(None).map(|n| Val::L((0..n as u128).map(|i| Val::L(vec![Val::U(i % 200), Val::U(9)])).collect())).collect(),
        Ty::Set(_) => lens(None).map(|n| Val::L((0..n as u128).map(|i| Val::U(i % 200)).collect())).collect(),
        Ty::Opt(t) => long(t).into_iter().map(|v| opt(Some(v))).collect(),
        Ty::RefCell(t) => long(t),
        Ty::Tup(ts) | Ty::Struct(ts) => ts.iter().enumerate().flat_map(|(i, t)| long(t).into_iter().map(move |v| Val::L(ts.iter().enumerate().map(|(j, t)| if i == j { v.clone() } else { small(t)[0].clone() }).collect()))).collect(),
        Ty::Arr(t, n) => long(t).into_iter().flat_map(|v| (0..*n).map(move |k| Val::L((0..*n).map(|i| if i == k { v.clone() } else { small(t)[0].clone() }).collect()))).collect(),
        _ => vec![],
    }
}

/// Small values with all lengths up to four.
fn small(t: &Ty) -> Vec<Val> {
    match t {
        Ty::UInt(1) => vec![Val::U(7), Val::U(8)],
        Ty::UInt(_) => vec![Val::U(0x0102)],
        Ty::Unit => vec![Val::Unit],
        Ty::Opt(t) => std::iter::once(opt(None)).chain(small(t).into_iter().map(|v| opt(Some(v)))).collect(),
        Ty::Res(a, b) => small(a).into_iter().map(|v| Val::Ok(Box::new(v))).chain(small(b).into_iter().map(|v| Val::Err(Box::new(v)))).collect(),
        Ty::Bound(t) => vec![Val::Var(0, vec![small(t)[0].clone()]), Val::Var(1, vec![small(t)[0].clone()]), Val::Var(2, vec![])],
        Ty::Arr(t, n) => rotations(&small(t), *n),
        Ty::Seq(t, c) => (0..=c.unwrap_or(4).min(4)).flat_map(|n| rotations(&small(t), n)).collect(),
        Ty::Tup(ts) | Ty::Struct(ts) => fields(ts),
        Ty::RefCell(t) => small(t),
        Ty::Map(..) => (0..=4).map(|n| Val::L((0..n).map(|i| Val::L(vec![Val::U(i % 3), Val::U(9)])).collect())).collect(),
        Ty::Set(_) => (0..=4).map(|n| Val::L((0..n).map(|i| Val::U(i % 3)).collect())).collect(),
        Ty::Enum(_, vs) => vs.iter().enumerate().flat_map(|(i, (_, ts))| fields(ts).into_iter().map(move |f| { let Val::L(f) = f else { unreachable!() }; Val::Var(i, f) })).collect(),
        t => panic!("{t:?}"),
    }
}
fn rotations(v: &[Val], n: usize) -> Vec<Val> {
    let mut out: Vec<Val> = (0..v.len()).map(|k| Val::L((0..n).map(|i| v[(i + k) % v.len()].clone()).collect())).collect();
    if v.len() > 2 { out.extend((0..v.len()).map(|k| Val::L((0..n).map(|i| v[(k + i * (v.len() / 2)) % v.len()].clone()).collect()))) }
    out.sort();
    out.dedup();
    out
}
fn fields(ts: &[Ty]) -> Vec<Val> {
    let s: Vec<Vec<Val>> = ts.iter().map(small).collect();
    let n = s.iter().map(Vec::len).max().unwrap_or(1);
    let mut out: Vec<Val> = (0..n).map(|k| Val::L(s.iter().map(|v| v[k % v.len()].clone()).collect())).collect();
    out.dedup();
    out
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Fault { None, Call(usize, Kind), Cut(usize) }

/// What becomes of the elements, if sized slices drop nothing: how many the
/// value holds that its destruction will not drop, and how many at all.
struct Sim { calls: usize, pos: usize, fault: Fault }
struct Held { all: usize, lost: usize }
impl Sim {
    fn read(&mut self, n: usize) -> Result<(), usize> {
        if matches!(self.fault, Fault::Cut(c) if self.pos + n > c) { return Err(0) }
        self.pos += n;
        Ok(())
    }
    fn items<'a>(&mut self, l: impl Iterator<Item = (&'a Ty, &'a Val)>) -> Result<Held, usize> {
        let mut h = Held { all: 0, lost: 0 };
        for (t, v) in l {
            let x = self.value(t, v).map_err(|lost| lost + h.lost)?;
            h.all += x.all;
            h.lost += x.lost;
        }
        Ok(h)
    }
    fn value(&mut self, t: &Ty, v: &Val) -> Result<Held, usize> {
        let none = Held { all: 0, lost: 0 };
        Ok(match (t, v) {
            (Ty::UInt(1), _) => {
                self.read(1)?;
                if matches!(self.fault, Fault::Call(k, _) if k == self.calls) { return Err(0) }
                self.calls += 1;
                Held { all: 1, lost: 0 }
            }
            (Ty::UInt(n), _) => { self.read(*n as usize)?; none }
            (Ty::Unit, _) => none,
            (Ty::Opt(_), Val::Opt(None)) => { self.read(1)?; none }
            (Ty::Opt(t), Val::Opt(Some(v))) => { self.read(1)?; self.value(t, v)? }
            (Ty::Res(t, _), Val::Ok(v)) | (Ty::Res(_, t), Val::Err(v)) => { self.read(1)?; self.value(t, v)? }
            (Ty::Bound(t), Val::Var(_, f)) => { self.read(1)?; self.items(f.iter().map(|v| (&**t, v)))? }
            (Ty::Arr(t, _), Val::L(l)) => self.items(l.iter().map(|v| (&**t, v)))?,
            (Ty::Seq(t, c), Val::L(l)) => {
                self.read(2)?;
                let mut h = self.items(l.iter().map(|v| (&**t, v)))?;
                if c.is_some() { h.lost = h.all }
                h
            }
            (Ty::Tup(ts) | Ty::Struct(ts), Val::L(l)) => self.items(ts.iter().zip(l))?,
            (Ty::RefCell(t), v) => self.value(t, v)?,
            (Ty::Set(t), Val::L(l)) => { self.read(2)?; self.items(l.iter().map(|v| (&**t, v)))? }
            (Ty::Map(k, w), Val::L(l)) => {
                self.read(2)?;
                self.items(l.iter().flat_map(|kv| [(&**k, &list(kv)[0]), (&**w, &list(kv)[1])]))?
            }
            (Ty::Enum(_, vs), Val::Var(i, l)) => { self.read(2)?; self.items(vs[*i].1.iter().zip(l))? }
            (t, v) => panic!("{v:?} is not a {t:?}"),
        })
    }
}

fn decoding<X: Own, C: Decode + 'static>(s: &mut Vec<Section>, name: String, ty: Ty, values: fn(&Ty) -> Vec<Val>) {
    s.push(section(name.clone(), move |cx| {
        let f = faults();
        let _ = guard(|| panic!("warm up"));
        for v in values(&ty) {
            let mut bytes = Vec::new();
            encode(&ty, &v, &mut bytes).unwrap();
            let mut sim = Sim { calls: 0, pos: 0, fault: Fault::None };
            let _ = sim.value(&ty, &v);
            let calls = sim.calls;
            let mut fs = vec![Fault::None];
            // All places, of long values the first and those about powers of two.
            let places = |n: usize| -> Vec<usize> { if n <= 64 { (0..n).collect() } else { let mut v: Vec<usize> = (0..20).chain(late_places(n)).collect(); v.sort(); v.dedup(); v } };
            for k in places(calls) { fs.extend([Fault::Call(k, Kind::Error), Fault::Call(k, Kind::Panic)]) }
            fs.extend(places(bytes.len()).into_iter().map(Fault::Cut));
            for fault in fs {
                cx.case(fp_of(&(&bytes, fault)), || format!("{name} from {} with {fault:?}", hex(&bytes)), |_| {
                    let data = match fault { Fault::Cut(c) => &bytes[..c], _ => &bytes[..] };
                    ledger::reset(match fault { Fault::Call(k, kind) => Some((k, kind)), _ => None });
                    let mut ok = false;
                    let mut panicked = false;
                    let m = watch(|| {
                        let r = guard(|| C::decode(&mut Input::new(data)).map_err(drop));
                        ok = matches!(r, Ok(Ok(_)));
                        panicked = r.is_err();
                        drop(r);
                    });
                    let want = Sim { calls: 0, pos: 0, fault }.value(&ty, &v);
                    ensure!(ok == want.is_ok(), "decoding succeeds or fails otherwise than expected", "{ok}");
                    ensure!(fault == Fault::None || matches!(fault, Fault::Cut(_)) || panicked == matches!(fault, Fault::Call(_, Kind::Panic)), "an error panics or a panic does not", "{panicked}");
                    let (made, unmade, wrong) = ledger::with(|l| (l.made, l.unmade, l.wrong.clone()));
                    ensure!(wrong.is_empty(), wrong[0], "{wrong:?}");
                    let lost = match want { Ok(h) => h.lost, Err(l) => l };
                    let leaked = made - unmade;
                    let known = f.slice && lost > 0;
                    memory(&m, known || leaked > 0)?;
                    if leaked > 0 && known && leaked == lost { bad!(SLICE_LEAKS, "{leaked} of {made} elements") }
                    ensure!(leaked == 0, "elements leak", "{leaked} of {made} elements, {lost} of them in sized slices");
                    Ok(if ok { "decoded" } else if panicked { "panicked" } else { "refused" })
                });
            }
        }
    }));
}

macro_rules! shapes { ($s:ident, $x:ident, $xn:expr, $values:expr; $($t:ty),* $(,)?) => { $( {
    type A<$x> = $t;
    decoding::<D, A<D>>($s, format!("{}{} of owners", $xn, stringify!($t).replace(' ', "")), <A<u8>>::ty(), $values);
    decoding::<W, A<W>>($s, format!("{}{} of aligned", $xn, stringify!($t).replace(' ', "")), <A<u8>>::ty(), $values);
    decoding::<Z, A<Z>>($s, format!("{}{} of sizeless", $xn, stringify!($t).replace(' ', "")), <A<u8>>::ty(), $values);
} )* } }

// ---- Histories ----

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Fate { Live, Dropped, Leaked, Unclear }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Model { fate: Vec<Fate>, slice: Option<Vec<usize>>, iter: Option<Vec<usize>>, vec: Option<Vec<usize>> }
struct Real<X, const N: usize> { slice: Option<SizedSlice<X, N>>, iter: Option<SizedIter<X, N>>, vec: Option<Vec<X>> }
#[derive(Clone, Debug)]
enum Op { New(usize, Option<usize>), TryFrom(usize), Array, Collect(usize, Option<usize>), Clone(Option<usize>), CloneFrom, IntoVec(bool), IntoBox(bool), IntoIter, Raw, Assign(usize), Swap, Take, Discard, Each, Next, Back, Nth(usize), NthBack(usize), IterClone(Option<usize>), IterDrop, IterCollect, IterFold(usize), IterSet, VecPop, VecDrop, VecBack, Truncate }
struct S<X, const N: usize> { f: Faults, p: PhantomData<X> }

impl Model {
    fn fresh(&mut self, n: usize) -> Vec<usize> { (0..n).map(|_| { self.fate.push(Fate::Live); self.fate.len() - 1 }).collect() }
    fn set(&mut self, ids: &[usize], f: Fate) { for i in ids { self.fate[*i] = f } }
}
impl<X: Own, const N: usize> S<X, N> {
    fn lose_slice(&self) -> Fate { if self.f.slice { Fate::Leaked } else { Fate::Dropped } }
    fn lose_iter(&self) -> Fate { if self.f.iter { Fate::Leaked } else { Fate::Dropped } }
    fn put(&self, r: &mut Real<X, N>, m: &mut Model, s: SizedSlice<X, N>, ids: Vec<usize>) {
        r.slice = Some(s);
        if let Some(old) = m.slice.replace(ids) { m.set(&old, self.lose_slice()) }
    }
}
impl<X: Own, const N: usize> Sys for S<X, N> {
    type Real = Real<X, N>;
    type Model = Model;
    type Op = Op;
    fn start(&self) -> (Real<X, N>, Model) {
        ledger::reset(None);
        (Real { slice: None, iter: None, vec: None }, Model { fate: vec![], slice: None, iter: None, vec: None })
    }
    fn ops(&self, m: &Model) -> Vec<Op> {
        let mut v = Vec::new();
        for n in [0, 1, N.saturating_sub(1), N, N + 1] { if !v.iter().any(|o| matches!(o, Op::New(k, None) if *k == n)) { v.push(Op::New(n, None)); v.push(Op::Collect(n, None)) } }
        for k in 0..N { v.push(Op::New(N, Some(k))); v.push(Op::Collect(N, Some(k))) }
        v.push(Op::TryFrom(N));
        v.push(Op::Array);
        if let Some(s) = &m.slice {
            v.extend([Op::Clone(None), Op::CloneFrom, Op::IntoVec(false), Op::IntoVec(true), Op::IntoBox(false), Op::IntoBox(true), Op::IntoIter, Op::Raw, Op::Take, Op::Discard, Op::Each]);
            for k in 0..s.len() { v.push(Op::Clone(Some(k))); v.push(Op::Assign(k)) }
            if s.len() > 1 { v.push(Op::Swap) }
            if s.len() > 0 { v.push(Op::Truncate) }
        }
        if let Some(s) = &m.iter {
            v.extend([Op::Next, Op::Back, Op::IterClone(None), Op::IterDrop, Op::IterCollect, Op::IterSet]);
            for k in 0..s.len() { v.push(Op::IterClone(Some(k))); v.push(Op::IterFold(k)) }
            for k in 1..=s.len() { v.push(Op::Nth(k)); v.push(Op::NthBack(k)) }
        }
        if let Some(s) = &m.vec { if !s.is_empty() { v.push(Op::VecPop) } v.extend([Op::VecDrop, Op::VecBack]) }
        v
    }
    fn step(&self, r: &mut Real<X, N>, m: &mut Model, op: &Op) -> Result<&'static str, Bad> {
        let fresh = |n: usize| -> Vec<X> { (0..n).map(|_| X::fresh()).collect() };
        let panics = |k: Option<usize>| ledger::plan(k.map(|k| (k, Kind::Panic)));
        Ok(match *op {
            Op::New(n, k) => {
                let src = fresh(n);
                let ids = m.fresh(n);
                panics(k);
                let x = guard(|| SizedSlice::<X, N>::new(&src));
                panics(None);
                drop(src);
                m.set(&ids, Fate::Dropped);
                match x {
                    Ok(Ok(s)) => { ensure!(n <= N && k.is_none_or(|k| k >= n), "SizedSlice: new succeeds", ""); let ids = m.fresh(n); self.put(r, m, s, ids); "made" }
                    Ok(Err(_)) => { ensure!(n > N, "SizedSlice: new fails", ""); "refused" }
                    Err(_) => { let k = k.ok_or_else(|| Bad::new("SizedSlice: new panics", ""))?; let ids = m.fresh(k); m.set(&ids, Fate::Unclear); "panicked" }
                }
            }
            Op::TryFrom(n) => {
                let src = fresh(n);
                let ids = m.fresh(n);
                let s = SizedSlice::<X, N>::try_from(&src[..]).map_err(|_| Bad::new("SizedSlice: refused", ""))?;
                drop(src);
                m.set(&ids, Fate::Dropped);
                let ids = m.fresh(n);
                self.put(r, m, s, ids);
                "made"
            }
            Op::Array => {
                let a: [X; N] = std::array::from_fn(|_| X::fresh());
                let ids = m.fresh(N);
                self.put(r, m, a.into(), ids);
                "made"
            }
            Op::Collect(n, k) => {
                // The source panics at its k-th element and owns nothing then.
                let mut made = 0;
                let x = guard(|| -> SizedSlice<X, N> { (0..n).map(|i| { if k == Some(i) { panic!("injected") } made += 1; X::fresh() }).collect() });
                let ids = m.fresh(made);
                match x {
                    Ok(s) => { ensure!(made == n.min(N), "SizedSlice: elements taken", "{made}"); self.put(r, m, s, ids); "made" }
                    Err(_) => { m.set(&ids, Fate::Unclear); "panicked" }
                }
            }
            Op::Clone(k) => {
                let s = r.slice.as_ref().unwrap();
                let n = m.slice.as_ref().unwrap().len();
                panics(k);
                let x = guard(|| s.clone());
                panics(None);
                match x {
                    Ok(c) => { let ids = m.fresh(n); self.put(r, m, c, ids); "cloned" }
                    Err(_) => { let ids = m.fresh(k.unwrap_or(0)); m.set(&ids, Fate::Unclear); "panicked" }
                }
            }
            Op::CloneFrom => {
                let n = m.slice.as_ref().unwrap().len();
                let mut t: SizedSlice<X, N> = fresh(N).into_iter().collect();
                let old = m.fresh(N);
                t.clone_from(r.slice.as_ref().unwrap());
                m.set(&old, self.lose_slice());
                let ids = m.fresh(n);
                self.put(r, m, t, ids);
                "cloned"
            }
            Op::IntoVec(f) | Op::IntoBox(f) => {
                let s = r.slice.take().unwrap();
                let ids = m.slice.take().unwrap();
                let v: Vec<X> = match op { Op::IntoVec(_) => if f { s.into() } else { s.into_vec() }, _ => if f { Box::<[X]>::from(s).into_vec() } else { s.into_boxed_slice().into_vec() } };
                ensure!(v.len() == ids.len(), "SizedSlice: conversion", "{}", v.len());
                r.vec = Some(v);
                if let Some(old) = m.vec.replace(ids) { m.set(&old, Fate::Dropped) }
                "converted"
            }
            Op::IntoIter => {
                r.iter = Some(r.slice.take().unwrap().into_iter());
                let ids = m.slice.take().unwrap();
                if let Some(old) = m.iter.replace(ids) { m.set(&old, self.lose_iter()) }
                "converted"
            }
            Op::Raw => { let (b, n) = r.slice.take().unwrap().into_raw_parts(); r.slice = Some(unsafe { SizedSlice::from_raw_parts(b, n) }); "rebuilt" }
            Op::Assign(i) => {
                r.slice.as_mut().unwrap()[i] = X::fresh();
                let id = m.fresh(1)[0];
                let old = std::mem::replace(&mut m.slice.as_mut().unwrap()[i], id);
                m.set(&[old], Fate::Dropped);
                "assigned"
            }
            Op::Swap => { r.slice.as_mut().unwrap().reverse(); m.slice.as_mut().unwrap().reverse(); "moved" }
            Op::Take => { let s = std::mem::take(r.slice.as_mut().unwrap()); r.slice = Some(s); "moved" }
            Op::Discard => { r.slice = None; let ids = m.slice.take().unwrap(); m.set(&ids, self.lose_slice()); "discarded" }
            Op::Truncate => {
                // The caller takes the last one over.
                let s = r.slice.as_mut().unwrap();
                let n = s.len() - 1;
                let last = unsafe { s.set_len(n); s.as_ptr().add(n).read() };
                drop(last);
                let id = m.slice.as_mut().unwrap().pop().unwrap();
                m.set(&[id], Fate::Dropped);
                "taken out"
            }
            Op::Each => {
                let s = r.slice.as_mut().unwrap();
                let a = s.each_ref().iter().map(|x| x.id()).collect::<Vec<_>>();
                let e = s.each_mut();
                let b = e.iter().map(|x| x.id()).collect::<Vec<_>>();
                drop(e);
                ensure!(!X::SIZED || a == *m.slice.as_ref().unwrap() && a == b, "SizedSlice: each", "{a:?}");
                "borrowed"
            }
            Op::Next | Op::Back => {
                let it = r.iter.as_mut().unwrap();
                let q = m.iter.as_mut().unwrap();
                let (g, w) = if matches!(op, Op::Next) { (it.next(), if q.is_empty() { None } else { Some(q.remove(0)) }) } else { (it.next_back(), q.pop()) };
                ensure!(g.is_some() == w.is_some() && (!X::SIZED || g.as_ref().map(|x| x.id()) == w), "SizedIter: element", "");
                drop(g);
                if let Some(w) = w { m.set(&[w], Fate::Dropped); "taken" } else { "exhausted" }
            }
            Op::Nth(k) => {
                let it = r.iter.as_mut().unwrap();
                let q = m.iter.as_mut().unwrap();
                let n = q.len();
                let skipped: Vec<usize> = q.drain(..k.min(n)).collect();
                let w = if self.f.nth { q.first().copied() } else if q.is_empty() { None } else { Some(q.remove(0)) };
                let g = it.nth(k);
                ensure!(g.is_some() == w.is_some() && (!X::SIZED || g.as_ref().map(|x| x.id()) == w), "SizedIter: nth", "");
                // Its second owner must not drop it: the known finding.
                if self.f.nth { std::mem::forget(g) } else { drop(g) }
                m.set(&skipped, Fate::Dropped);
                if !self.f.nth { if let Some(w) = w { m.set(&[w], Fate::Dropped) } }
                "skipped"
            }
            Op::NthBack(k) => {
                let q = m.iter.as_mut().unwrap();
                let n = q.len();
                let skipped: Vec<usize> = q.drain(n - k.min(n)..).collect();
                let w = q.pop();
                let g = r.iter.as_mut().unwrap().nth_back(k);
                ensure!(g.is_some() == w.is_some() && (!X::SIZED || g.as_ref().map(|x| x.id()) == w), "SizedIter: nth_back", "");
                drop(g);
                m.set(&skipped, Fate::Dropped);
                if let Some(w) = w { m.set(&[w], Fate::Dropped) }
                "skipped"
            }
            Op::IterClone(k) => {
                let it = r.iter.as_ref().unwrap();
                let n = m.iter.as_ref().unwrap().len();
                panics(k);
                let x = guard(|| it.clone());
                panics(None);
                match x {
                    Ok(c) => {
                        ensure!(k.is_none(), "SizedIter: clone survives a panic", "");
                        r.iter = Some(c);
                        let ids = m.fresh(n);
                        let old = m.iter.replace(ids).unwrap();
                        m.set(&old, self.lose_iter());
                        "cloned"
                    }
                    Err(_) => { let ids = m.fresh(k.unwrap_or(0)); m.set(&ids, Fate::Unclear); "panicked" }
                }
            }
            Op::IterDrop => { r.iter = None; let ids = m.iter.take().unwrap(); m.set(&ids, self.lose_iter()); "discarded" }
            Op::IterCollect => {
                let v: Vec<X> = r.iter.take().unwrap().collect();
                let ids = m.iter.take().unwrap();
                ensure!(v.len() == ids.len(), "SizedIter: collect", "{}", v.len());
                r.vec = Some(v);
                if let Some(old) = m.vec.replace(ids) { m.set(&old, Fate::Dropped) }
                "converted"
            }
            Op::IterFold(k) => {
                // The caller panics at the k-th element, which it owns.
                let it = r.iter.as_mut().unwrap();
                let mut i = 0;
                let x = guard(|| it.by_ref().for_each(|_x| { i += 1; if i == k + 1 { panic!("injected") } }));
                ensure!(x.is_err() && i == k + 1, "SizedIter: for_each", "{i}");
                let out: Vec<usize> = m.iter.as_mut().unwrap().drain(..k + 1).collect();
                m.set(&out, Fate::Dropped);
                "panicked"
            }
            Op::IterSet => {
                let q = m.iter.as_mut().unwrap();
                if q.is_empty() { return Ok("nothing") }
                r.iter.as_mut().unwrap().as_mut_slice()[0] = X::fresh();
                m.fate.push(Fate::Live);
                let old = std::mem::replace(&mut q[0], m.fate.len() - 1);
                m.set(&[old], Fate::Dropped);
                "assigned"
            }
            Op::VecPop => { drop(r.vec.as_mut().unwrap().pop()); let id = m.vec.as_mut().unwrap().pop().unwrap(); m.set(&[id], Fate::Dropped); "taken" }
            Op::VecDrop => { r.vec = None; let ids = m.vec.take().unwrap(); m.set(&ids, Fate::Dropped); "discarded" }
            Op::VecBack => { let s: SizedSlice<X, N> = r.vec.take().unwrap().into_iter().collect(); let ids = m.vec.take().unwrap(); self.put(r, m, s, ids); "converted" }
        })
    }
    fn observe(&self, r: &mut Real<X, N>, m: &Model) -> Result<(), Bad> {
        let (made, unmade, wrong, drops) = ledger::with(|l| (l.made, l.unmade, l.wrong.clone(), l.drops.clone()));
        ensure!(wrong.is_empty(), wrong[0], "{wrong:?}");
        ensure!(made == m.fate.len(), "elements come out of nowhere", "{made} instead of {}", m.fate.len());
        if X::SIZED {
            for (i, (d, f)) in drops.iter().zip(&m.fate).enumerate() {
                ensure!(match f { Fate::Live => *d == 0, Fate::Dropped => *d == 1, Fate::Leaked => *d == 0, Fate::Unclear => *d <= 1 }, if *d == 0 { "an element is not dropped" } else { "an element is dropped too early or too often" }, "element {i}: {d} drops, {f:?}");
            }
        } else {
            let n = m.fate.iter().filter(|f| **f == Fate::Dropped).count();
            let u = m.fate.iter().filter(|f| **f == Fate::Unclear).count();
            ensure!(unmade >= n && unmade <= n + u, "wrong number of elements dropped", "{unmade} instead of {n} (and up to {u})");
        }
        let same = |g: Option<&[X]>, w: &Option<Vec<usize>>| match (g, w) { (None, None) => true, (Some(g), Some(w)) => g.len() == w.len() && (!X::SIZED || g.iter().map(|x| x.id()).eq(w.iter().copied())), _ => false };
        ensure!(same(r.slice.as_ref().map(|s| s.as_slice()), &m.slice), "SizedSlice: elements", "");
        ensure!(same(r.iter.as_ref().map(|s| s.as_slice()), &m.iter), "SizedIter: elements", "");
        ensure!(same(r.vec.as_ref().map(|s| &s[..]), &m.vec), "Vec: elements", "");
        let wrong = ledger::with(|l| l.wrong.clone());
        ensure!(wrong.is_empty(), wrong[0], "{wrong:?}");
        Ok(())
    }
}

fn histories<X: Own, const N: usize>(s: &mut Vec<Section>, name: &'static str, depth: usize) {
    s.push(section(format!("histories of SizedSlice<{name}, {N}>"), move |cx| {
        let depth = depth + cx.thorough as usize;
        tree(cx, &S::<X, N> { f: faults(), p: PhantomData }, depth);
    }));
    // Conversions with the allocator watched.
    s.push(section(format!("memory of SizedSlice<{name}, {N}>"), move |cx| {
        let _ = guard(|| panic!("warm up"));
        let f = faults();
        for n in 0..=N { for way in 0..9usize { for k in 0..=n {
            cx.case(fp_of(&(n, way, k)), || format!("{n} elements, way {way}, {k}"), |_| {
                ledger::reset(None);
                let src: Vec<X> = (0..n).map(|_| X::fresh()).collect();
                let m = watch(|| {
                    let s: SizedSlice<X, N> = (0..n).map(|_| X::fresh()).collect();
                    match way {
                        0 => { let mut v = s.into_vec(); v.truncate(k); v.push(X::fresh()); }
                        1 => { let b = s.into_boxed_slice(); drop(b); }
                        2 => { let v: Vec<X> = s.into(); let mut v = v; v.shrink_to_fit(); v.reserve(3); drop(v.into_boxed_slice()); }
                        3 => { let b: Box<[X]> = s.into(); let b: Rc<[X]> = b.into(); drop(b); }
                        4 => { let mut i = s.into_iter(); for _ in 0..k { i.next(); } if k == n { drop(i) } else { i.for_each(drop) } }
                        5 => { let mut v = Vec::new(); v.extend(s.into_iter().rev()); v.truncate(k); }
                        6 => { let c = s.clone(); drop(c.into_vec()); drop(s.into_vec()); }
                        7 => { if let Ok(c) = SizedSlice::<X, N>::new(&src) { drop(c.into_boxed_slice()); } drop(s.into_vec()); }
                        _ => { let mut i = s.into_iter(); for _ in 0..k { i.next_back(); } let v: Vec<X> = i.clone().collect(); drop(v); let v: Vec<X> = i.collect(); drop(v); }
                    }
                });
                let wrong = ledger::with(|l| l.wrong.clone());
                ensure!(wrong.is_empty(), wrong[0], "{wrong:?}");
                memory(&m, false)?;
                drop(src);
                let (a, b) = ledger::with(|l| (l.made, l.unmade));
                ensure!(a == b, "elements leak", "{} of {a}", a - b);
                Ok("accounted for")
            });
            cx.transitions += 3; cx.traces += 1;
        } } }
    }));
}

fn main() {
    run(|| {
        let mut v = Vec::new();
        let s = &mut v;
        shapes!(s, X, "long ", long;
            [X; 17], [X; 40], [X; 300], Vec<X>, LinkedList<X>, SizedSlice<X, 17>, SizedSlice<X, 40>, SizedSlice<X, 300>, Map<X, X>, Set<X>,
            Vec<[X; 2]>, Vec<Option<X>>, Vec<Box<X>>, [Box<X>; 40], [(X, X); 20], [Option<X>; 33], SizedSlice<Box<X>, 40>, LinkedList<(X, X)>, Vec<Vec<X>>, (Vec<X>, Vec<X>), DS<X>, Option<[X; 40]>, [[X; 20]; 2], [Vec<X>; 2], RefCell<Vec<X>>, Vec<SizedSlice<X, 2>>,
        );
        shapes!(s, X, "", small;
            [X; 0], [X; 1], [X; 2], [X; 4], Vec<X>, LinkedList<X>, SizedSlice<X, 0>, SizedSlice<X, 1>, SizedSlice<X, 4>,
            Box<X>, Rc<X>, Arc<X>, Cell<XC<X>>, RefCell<X>, Mutex<X>, RwLock<X>, Option<X>, Result<X, X>, Bound<X>, Saturated<X>,
            Range<X>, RangeFrom<X>, RangeInclusive<X>, RangeTo<X>, RangeToInclusive<X>,
            (X,), (X, X), (X, X, X), (X, X, X, X), (X, X, X, X, X), (X, X, X, X, X, X), (X, X, X, X, X, X, X, X, X, X, X, X),
            Map<X, X>, Set<X>, Vec<Map<X, X>>, Option<Set<X>>, [Map<X, X>; 2],
            Vec<[X; 2]>, Vec<Vec<X>>, [Vec<X>; 2], LinkedList<Vec<X>>, Vec<LinkedList<X>>, Vec<Option<X>>, Option<Vec<X>>, [[X; 2]; 2], Vec<(X, X)>, Vec<Box<X>>, Box<[X; 3]>, Rc<Vec<X>>, Vec<Rc<X>>,
            Mutex<Vec<X>>, RefCell<[X; 2]>, Option<[X; 3]>, Result<[X; 2], [X; 2]>, [Option<X>; 3], [Box<X>; 3], [(X, X); 2], [Result<X, X>; 2], (Box<X>, Box<X>), Range<Box<X>>, RangeInclusive<Box<X>>, [Range<X>; 2], Vec<Bound<X>>, [Rc<X>; 2], [Arc<X>; 2], [Mutex<X>; 2], LinkedList<[X; 2]>, LinkedList<Box<X>>,
            SizedSlice<Vec<X>, 2>, Vec<SizedSlice<X, 2>>, SizedSlice<SizedSlice<X, 2>, 2>, [SizedSlice<X, 2>; 2], SizedSlice<[X; 2], 2>, SizedSlice<Option<X>, 3>, SizedSlice<Box<X>, 3>, SizedSlice<(X, X), 2>, LinkedList<SizedSlice<X, 2>>, (SizedSlice<X, 1>, SizedSlice<X, 1>),
            DS<X>, DE<X>, Vec<DS<X>>, [DE<X>; 2], Option<DS<X>>, SizedSlice<DE<X>, 2>,
            [[[X; 2]; 2]; 2], Vec<Vec<Vec<X>>>,
        );
        macro_rules! cow { ($($x:ident),*) => { $( decoding::<$x, Cow<'static, $x>>(s, format!("Cow of {}", stringify!($x)), u8::ty(), small); decoding::<$x, Cow<'static, [$x]>>(s, format!("Cow of [{}]", stringify!($x)), <Vec<u8>>::ty(), small); )* } }
        cow!(D, W, Z);
        histories::<D, 0>(s, "D", 4); histories::<D, 1>(s, "D", 4); histories::<D, 2>(s, "D", 3); histories::<D, 3>(s, "D", 3);
        histories::<W, 2>(s, "W", 3); histories::<Z, 2>(s, "Z", 3); histories::<Z, 3>(s, "Z", 3); histories::<W, 3>(s, "W", 2);

        // The known findings, each on its own.
        s.push(section("discarded sized slices", |cx| {
            for n in 0..=3usize { for way in 0..4usize {
                cx.case(fp_of(&(n, way)), || format!("{n} elements, way {way}"), |_| {
                    ledger::reset(None);
                    let x: SizedSlice<D, 3> = (0..n).map(|_| D::fresh()).collect();
                    match way {
                        0 => drop(x),
                        1 => { let mut y = x; drop(std::mem::take(&mut y)); drop(y) }
                        2 => drop(x.into_iter()),
                        _ => { let mut i = x.into_iter(); drop(i.next()); drop(i) }
                    }
                    let (drops, wrong) = ledger::with(|l| (l.drops.clone(), l.wrong.clone()));
                    ensure!(wrong.is_empty(), wrong[0], "");
                    let early = (way == 3 && n > 0) as usize;
                    if drops.iter().skip(early).any(|d| *d == 0) {
                        ensure!(drops.iter().take(early).all(|d| *d == 1) && drops.iter().skip(early).all(|d| *d == 0), "some elements are not dropped", "{drops:?}");
                        bad!(if way < 2 { SLICE_LEAKS } else { ITER_LEAKS }, "{drops:?}")
                    }
                    ensure!(drops.iter().all(|d| *d == 1), "an element is dropped twice", "{drops:?}");
                    Ok("dropped")
                });
            } }
        }));
        s.push(section("skipped to elements", |cx| {
            for n in 1..=4usize { for k in 0..n {
                cx.case(fp_of(&(n, k)), || format!("nth({k}) of {n}"), |_| {
                    ledger::reset(None);
                    let mut it = (0..n).map(|_| D::fresh()).collect::<SizedSlice<D, 4>>().into_iter();
                    let a = it.nth(k);
                    let id = a.as_ref().map(|a| a.id());
                    ensure!(id == Some(k), "SizedIter: nth", "{id:?}");
                    let again = it.as_slice().first().map(|d| d as *const D);
                    let twice = again.is_some_and(|p| unsafe { (*p).id() } == k);
                    std::mem::forget(a);
                    std::mem::forget(it);
                    if twice && k > 0 { bad!(NTH_TWICE, "element {k} is returned and remains") }
                    ensure!(!twice, "an element is given away twice", "");
                    let wrong = ledger::with(|l| l.wrong.clone());
                    ensure!(wrong.is_empty(), wrong[0], "");
                    Ok("once")
                });
            } }
        }));
        // Strings and slots.
        s.push(section("memory of strings and slots", |cx| {
            let _ = guard(|| panic!("warm up"));
            for n in 0..=9usize { for way in 0..12usize {
                cx.case(fp_of(&(n, way)), || format!("{n} bytes, way {way}"), |_| {
                    let t: String = (0..n).map(|i| (b'a' + i as u8) as char).collect();
                    let m = watch(|| match way {
                        0 => drop(SizedStr::<9>::new(&t).unwrap().into_boxed_str()),
                        1 => { let mut s = SizedStr::<9>::new(&t).unwrap().into_string(); s.push('x'); s.shrink_to_fit(); }
                        2 => drop(String::from(SizedStr::<9>::new(&t).unwrap())),
                        3 => drop(Box::<str>::from(SizedStr::<9>::new(&t).unwrap())),
                        4 => drop(SizedStr::<9>::try_from(t.clone())),
                        5 => drop(SizedStr::<3>::try_from(t.clone())),
                        6 => drop(Slot::<u8>::with_capacity(n)),
                        7 => { let mut s = Slot::<String>::with_capacity(n); let _ = guard(|| s.write(t.clone())); }
                        8 => { let mut s = Slot::<String>::with_capacity(n + 2); s.write(t.clone()).unwrap(); for _ in 0..3 { drop(s.read().unwrap()); } s.set_len(n / 2); let _ = guard(|| s.read().is_ok()); }
                        9 => { let b = vec![0u8; n].into_boxed_slice(); let s = unsafe { Slot::<u8>::from_raw_parts(Box::into_raw(b) as *mut u8, n, n / 2) }; drop(s) }
                        10 => { let mut s = Slot::<Vec<u8>>::with_capacity(n); let _ = guard(|| s.copy_from_slice(&[9; 5])); let _ = guard(|| s.set_len(6)); }
                        _ => { let s = SizedStr::<9>::new(&t).unwrap(); drop(s.clone().into_bytes().into_vec()); drop(CString::new(s.as_bytes()).unwrap()) }
                    });
                    memory(&m, false)?;
                    Ok("accounted for")
                });
            } }
        }));
        // Memory over all of the registry, with whatever sequence.
        for e in reg::all() {
            if e.heavy { continue }
            let e = Rc::new(e);
            s.push(section(format!("memory of {}", e.name), move |cx| {
                let _ = guard(|| panic!("warm up"));
                let f = faults();
                let leaky = may_leak(&e.ty) && f.slice;
                let judge = |m: Memory| -> CaseResult {
                    ensure!(m.lost == 0 || m.wrong.is_empty(), m.wrong[0], "{:?}", m.wrong);
                    if m.lost > 0 { return Ok("too big to account for") }
                    memory(&m, leaky)?;
                    if m.live > 0 { bad!(SLICE_LEAKS, "{} allocations", m.live) }
                    Ok("accounted for")
                };
                if let Some(dec) = &e.dec {
                    let (devs, points, lvl) = bounds(&e, cx.thorough);
                    let points = points.min(12);
                    sequences(&e.ty, devs.min(if cx.thorough { 2 } else { 1 }), points, lvl.min(1), |data, _| {
                        for cut in [data.len(), data.len().saturating_sub(1), data.len() / 2] {
                            if data.len() > 4000 { continue }
                            cx.case(fp_of(&(data, cut, 0)), || format!("{} from {}", e.name, hex(&data[..cut])), |_| judge(watch(|| drop(guard(|| dec(&mut Input::new(&data[..cut])))))));
                        }
                    });
                }
                for (i, v) in values(&e.ty, 0).into_iter().enumerate() {
                    let mut b = Vec::new();
                    if encode(&e.ty, &v, &mut b).is_err() || b.len() > 4000 { continue }
                    for cap in [b.len(), b.len().saturating_sub(1), 0] {
                        cx.case(fp_of(&(&v, cap, 1)), || format!("{}: value {i} into {cap} bytes", e.name), |_| judge(watch(|| { encode_real(&e, &v, cap, 0); })));
                    }
                }
            }));
        }
        v
    });
}
/// Whether the type has sized slices whose elements own memory.
fn may_leak(t: &Ty) -> bool {
    fn owns(t: &Ty) -> bool { match t { Ty::Str(None) | Ty::CStr | Ty::Map(..) | Ty::Set(_) | Ty::Seq(_, None) => true, Ty::Seq(t, _) => owns(t), _ => kids(t).iter().any(|t| owns(t)) } }
    fn kids(t: &Ty) -> Vec<&Ty> { match t {
        Ty::Opt(t) | Ty::Bound(t) | Ty::Arr(t, _) | Ty::Seq(t, _) | Ty::Set(t) | Ty::RefCell(t) => vec![t],
        Ty::Res(a, b) | Ty::Map(a, b) => vec![a, b],
        Ty::Tup(l) | Ty::Struct(l) => l.iter().collect(),
        Ty::Enum(_, v) => v.iter().flat_map(|v| &v.1).collect(),
        _ => vec![],
    } }
    match t { Ty::Seq(t, Some(_)) => owns(t), _ => kids(t).iter().any(|t| may_leak(t)) }
}

/// Cells hold copies only for some methods; decoding does not care.
type XC<X> = X;
type Saturated<X> = std::num::Saturating<X>;
