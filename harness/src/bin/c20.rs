//! C20: conversion of errors, chains of sources, messages.

use oct::decode::Decode;
use oct::encode::{Encode, SizedEncode};
use oct::error::*;
use oct::{PrimitiveDiscriminant, SizedSlice, SizedStr};
use std::cell::RefCell;
use std::collections::LinkedList;
use std::convert::Infallible;
use std::error::Error;
use std::fmt::{self, Debug, Display};
use std::num::NonZero;
use std::ops::{Bound, Range};
use std::rc::Rc;
use vh::codec::*;
use vh::cx::*;
use vh::err::{chain, node, Disc, Node, Norm, Why};
use vh::gen::bad_values;
use vh::model::*;
use vh::reg::{self, full, unbounded, Entry};
use vh::subj::{list, Map, Sub};
use vh::{bad, derived_enum, derived_struct, ensure};

// ---- Messages ----

/// Whether the number occurs in the message, in whatever base.
fn mentions(msg: &str, n: i128, wide: u128) -> bool {
    let mut last = "";
    for t in msg.split(|c: char| !c.is_ascii_alphanumeric() && c != '-') {
        if t == n.to_string() || t == wide.to_string() { return true }
        let hex = if last == "U" { Some(t) } else { t.strip_prefix("0x").or(t.strip_prefix("0X")) };
        if hex.is_some_and(|h| u128::from_str_radix(h, 16) == Ok(wide)) { return true }
        last = t;
    }
    false
}
fn names(msg: &str, leaf: &RefErr) -> bool {
    let has = |n: i128| mentions(msg, n, n as u128);
    match leaf {
        RefErr::Usize(n) => mentions(msg, *n as i128, *n),
        RefErr::Isize(n) => has(*n),
        RefErr::Char(c) => has(*c as i128),
        RefErr::Utf8(v, i) => has(*v as i128) && has(*i as i128),
        RefErr::Utf16(v, i) => has(*v as i128) && has(*i as i128),
        RefErr::Nul(i) => has(*i as i128),
        RefErr::Zero => has(0),
        RefErr::Len { cap, len } => has(*cap as i128) && has(*len as i128),
        RefErr::Time(t) => has(*t as i128),
        RefErr::Disc(d, w) => mentions(msg, *d, *w) || *w < 2 && msg.contains(if *d == 0 { "false" } else { "true" }),
        RefErr::GenDisc(w) => mentions(msg, *w as i128, *w),
        // Has no value.
        RefErr::Borrow => !msg.is_empty(),
        _ => false,
    }
}
/// The innermost error, not yet made generic.
fn innermost(e: &RefErr) -> &RefErr {
    match e {
        RefErr::BadLen(e) | RefErr::BadItem(e) | RefErr::Item(_, e) | RefErr::BadDisc(e) | RefErr::Field(e) | RefErr::CellValue(e) | RefErr::Gen(e) | RefErr::Str(e) => innermost(e),
        e => e,
    }
}
/// How long the chain of sources must be.
fn depth(e: &RefErr) -> usize {
    match e {
        RefErr::Gen(e) if matches!(**e, RefErr::GenDisc(_)) => 1,
        RefErr::Gen(e) if matches!(**e, RefErr::Borrow) => 2,
        RefErr::BadLen(e) | RefErr::BadItem(e) | RefErr::Item(_, e) | RefErr::BadDisc(e) | RefErr::Field(e) | RefErr::CellValue(e) | RefErr::Gen(e) | RefErr::Str(e) => 1 + depth(e),
        // RefCellEncodeError::BadBorrow.
        RefErr::Borrow => 2,
        _ => 1,
    }
}
fn check_chain(what: &str, e: &RefErr, c: &[Node]) -> Result<(), Bad> {
    let leaf = innermost(e);
    let msgs: Vec<&str> = c.iter().map(|n| n.msg.as_str()).collect();
    ensure!(c.len() == depth(e), format!("{what}: length of the chain of sources"), "{} instead of {}: {msgs:?}", c.len(), depth(e));
    let end = c.last().unwrap();
    let want = if matches!(leaf, RefErr::Disc(..) | RefErr::GenDisc(_)) { None } else { Some(leaf) };
    ensure!(end.leaf.as_ref() == want, format!("{what}: end of the chain of sources"), "{:?} instead of {want:?}", end.leaf);
    ensure!(c[..c.len() - 1].iter().all(|n| n.leaf.is_none()), format!("{what}: chain of sources"), "{msgs:?}");
    for (i, m) in msgs.iter().enumerate() { ensure!(names(m, leaf), format!("{what}: message does not name what offends"), "member {i}: {m:?} of {leaf:?}") }
    // Where each item is, is said by its own message and all around it.
    let mut x = e;
    let mut k = 0;
    loop {
        if let RefErr::Item(i, _) = x { for m in &msgs[..=k] { ensure!(mentions(m, *i as i128, *i as u128), format!("{what}: message does not name the index"), "{m:?} of {x:?}") } }
        x = match x { RefErr::BadLen(e) | RefErr::BadItem(e) | RefErr::Item(_, e) | RefErr::BadDisc(e) | RefErr::Field(e) | RefErr::CellValue(e) => e, _ => break };
        k += 1;
    }
    Ok(())
}
fn check_why(w: Why) -> CaseResult {
    check_chain("error", &w.spec, &w.chain)?;
    let want = w.spec.clone().generic();
    ensure!(w.gen == want, "conversion into the generic error", "{:?} became {:?} instead of {want:?}", w.spec, w.gen);
    check_chain("generic error", &want, &w.gen_chain)?;
    Ok(match innermost(&w.spec) {
        RefErr::Usize(_) => "size", RefErr::Isize(_) => "signed size", RefErr::Char(_) => "character", RefErr::Utf8(..) => "string", RefErr::Nul(_) => "C string", RefErr::Zero => "zero",
        RefErr::Len { .. } => "capacity", RefErr::Disc(..) | RefErr::GenDisc(_) => "discriminant", RefErr::Borrow => "borrowed", RefErr::Time(_) => "time", _ => bad!("harness: kind", "{:?}", w.spec),
    })
}

// ---- Errors nested in every order ----

trait Obj<G> {
    fn as_err(&self) -> &(dyn Error + 'static);
    fn generic(self: Box<Self>) -> G;
    fn norm(self: Box<Self>) -> RefErr;
}
impl<G, E: Error + Norm + Into<G> + 'static> Obj<G> for E {
    fn as_err(&self) -> &(dyn Error + 'static) { self }
    fn generic(self: Box<Self>) -> G { (*self).into() }
    fn norm(self: Box<Self>) -> RefErr { (*self).norm() }
}
/// Any error, standing for itself.
struct Any<G: 'static>(Box<dyn Obj<G>>);
impl<G: 'static> Debug for Any<G> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { Debug::fmt(self.0.as_err(), f) } }
impl<G: 'static> Display for Any<G> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { Display::fmt(self.0.as_err(), f) } }
impl<G: 'static> Error for Any<G> { fn source(&self) -> Option<&(dyn Error + 'static)> { self.0.as_err().source() } }
impl<G: 'static> Norm for Any<G> { fn norm(self) -> RefErr { self.0.norm() } }
type D = Any<GenericDecodeError>;
type E = Any<GenericEncodeError>;
impl From<D> for GenericDecodeError { fn from(x: D) -> Self { x.0.generic() } }
impl From<E> for GenericEncodeError { fn from(x: E) -> Self { x.0.generic() } }

type Is = fn(&(dyn Error + 'static)) -> bool;
struct Layer<G: 'static> { name: &'static str, wrap: fn(Any<G>) -> Any<G>, nodes: &'static [Is], generic: bool, model: fn(RefErr) -> RefErr }
struct Leaf<G: 'static> { make: Rc<dyn Fn() -> Any<G>>, nodes: Vec<Is>, model: RefErr }

fn dy<E: Error + Norm + Into<GenericDecodeError> + 'static>(e: E) -> D { Any(Box::new(e)) }
fn en<X: Error + Norm + Into<GenericEncodeError> + 'static>(e: X) -> E { Any(Box::new(e)) }
fn b(e: RefErr) -> Box<RefErr> { Box::new(e) }
fn made_generic(e: RefErr) -> RefErr { e.generic() }

macro_rules! is { ($($t:ty),*) => { &[$(|e: &(dyn Error + 'static)| e.is::<$t>()),*] } }

fn decode_layers() -> Vec<Layer<GenericDecodeError>> {
    macro_rules! item { ($t:ty, $i:expr, $n:expr) => { Layer { name: concat!("ItemDecodeError<", stringify!($t), ">"), wrap: |e| dy(Idx::<ItemDecodeError<$t, D>>(ItemDecodeError { index: $i, error: e })), nodes: is!(Idx<ItemDecodeError<$t, D>>), generic: false, model: |e| RefErr::Item($n, b(e)) } } }
    vec![
        Layer { name: "item", wrap: |e| dy(CollectionDecodeError::<Infallible, _>::BadItem(ItemDecodeError { index: 60_017usize, error: e })), nodes: is!(CollectionDecodeError<Infallible, ItemDecodeError<usize, D>>, ItemDecodeError<usize, D>), generic: false, model: |e| RefErr::BadItem(b(RefErr::Item(60_017, b(e)))) },
        Layer { name: "length", wrap: |e| dy(CollectionDecodeError::<_, Infallible>::BadLength(e)), nodes: is!(CollectionDecodeError<D, Infallible>), generic: false, model: |e| RefErr::BadLen(b(e)) },
        Layer { name: "bare item", wrap: |e| dy(CollectionDecodeError::<LengthError, D>::BadItem(e)), nodes: is!(CollectionDecodeError<LengthError, D>), generic: false, model: |e| RefErr::BadItem(b(e)) },
        Layer { name: "length of items", wrap: |e| dy(CollectionDecodeError::<D, ItemDecodeError<usize, CharDecodeError>>::BadLength(e)), nodes: is!(CollectionDecodeError<D, ItemDecodeError<usize, CharDecodeError>>), generic: false, model: |e| RefErr::BadLen(b(e)) },
        item!(usize, 3, 3),
        item!(&'static str, "key 45", 45),
        Layer { name: "field of u8", wrap: |e| dy(EnumDecodeError::<u8, _>::BadField(e)), nodes: is!(EnumDecodeError<u8, D>), generic: false, model: |e| RefErr::Field(b(e)) },
        Layer { name: "field of isize", wrap: |e| dy(EnumDecodeError::<isize, _>::BadField(e)), nodes: is!(EnumDecodeError<isize, D>), generic: false, model: |e| RefErr::Field(b(e)) },
        Layer { name: "field of bool", wrap: |e| dy(EnumDecodeError::<bool, _>::BadField(e)), nodes: is!(EnumDecodeError<bool, D>), generic: false, model: |e| RefErr::Field(b(e)) },
        Layer { name: "generic", wrap: |e| dy(GenericDecodeError::from(e)), nodes: is!(GenericDecodeError), generic: true, model: made_generic },
    ]
}
/// An item error with an index of whatever type.
struct Idx<T>(T);
impl<T: Debug> Debug for Idx<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } }
impl<T: Display> Display for Idx<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } }
impl<T: Error> Error for Idx<T> { fn source(&self) -> Option<&(dyn Error + 'static)> { self.0.source() } }
impl<I: Number> Norm for Idx<ItemDecodeError<I, D>> { fn norm(self) -> RefErr { RefErr::Item(self.0.index.number(), b(self.0.error.norm())) } }
impl<I: Number> Norm for Idx<ItemEncodeError<I, E>> { fn norm(self) -> RefErr { RefErr::Item(self.0.index.number(), b(self.0.error.norm())) } }
impl<I> From<Idx<ItemDecodeError<I, D>>> for GenericDecodeError { fn from(e: Idx<ItemDecodeError<I, D>>) -> Self { e.0.into() } }
impl<I> From<Idx<ItemEncodeError<I, E>>> for GenericEncodeError { fn from(e: Idx<ItemEncodeError<I, E>>) -> Self { e.0.into() } }
trait Number { fn number(&self) -> usize; }
impl Number for usize { fn number(&self) -> usize { *self } }
impl Number for &'static str { fn number(&self) -> usize { self.rsplit(' ').next().unwrap().parse().unwrap() } }

fn encode_layers() -> Vec<Layer<GenericEncodeError>> {
    vec![
        Layer { name: "item", wrap: |e| en(CollectionEncodeError::<UsizeEncodeError, _>::BadItem(ItemEncodeError { index: 60_017usize, error: e })), nodes: is!(CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, E>>, ItemEncodeError<usize, E>), generic: false, model: |e| RefErr::BadItem(b(RefErr::Item(60_017, b(e)))) },
        Layer { name: "length", wrap: |e| en(CollectionEncodeError::<_, Infallible>::BadLength(e)), nodes: is!(CollectionEncodeError<E, Infallible>), generic: false, model: |e| RefErr::BadLen(b(e)) },
        Layer { name: "bare item", wrap: |e| en(CollectionEncodeError::<Infallible, E>::BadItem(e)), nodes: is!(CollectionEncodeError<Infallible, E>), generic: false, model: |e| RefErr::BadItem(b(e)) },
        Layer { name: "ItemEncodeError<usize>", wrap: |e| en(Idx(ItemEncodeError { index: 3usize, error: e })), nodes: is!(Idx<ItemEncodeError<usize, E>>), generic: false, model: |e| RefErr::Item(3, b(e)) },
        Layer { name: "ItemEncodeError<&str>", wrap: |e| en(Idx(ItemEncodeError { index: "key 45", error: e })), nodes: is!(Idx<ItemEncodeError<&'static str, E>>), generic: false, model: |e| RefErr::Item(45, b(e)) },
        Layer { name: "field of u8", wrap: |e| en(EnumEncodeError::<u8, _>::BadField(e)), nodes: is!(EnumEncodeError<u8, E>), generic: false, model: |e| RefErr::Field(b(e)) },
        Layer { name: "field of isize", wrap: |e| en(EnumEncodeError::<isize, _>::BadField(e)), nodes: is!(EnumEncodeError<isize, E>), generic: false, model: |e| RefErr::Field(b(e)) },
        Layer { name: "field of bool", wrap: |e| en(EnumEncodeError::<bool, _>::BadField(e)), nodes: is!(EnumEncodeError<bool, E>), generic: false, model: |e| RefErr::Field(b(e)) },
        Layer { name: "cell", wrap: |e| en(RefCellEncodeError::BadValue(e)), nodes: is!(RefCellEncodeError<E>), generic: false, model: |e| RefErr::CellValue(b(e)) },
        Layer { name: "generic", wrap: |e| en(GenericEncodeError::from(e)), nodes: is!(GenericEncodeError), generic: true, model: made_generic },
    ]
}

fn decode_leaves(all: bool) -> Vec<Leaf<GenericDecodeError>> {
    let mut v: Vec<Leaf<GenericDecodeError>> = Vec::new();
    macro_rules! leaf { ($t:ty, $e:expr) => { v.push(Leaf { make: Rc::new(move || dy($e)), nodes: { let l: &[Is] = is!($t); l.to_vec() }, model: Norm::norm($e) }) } }
    for c in [0xd800u32, 0xdfff, 0x11_0000, u32::MAX, 0x8000_0001] { leaf!(CharDecodeError, CharDecodeError { code_point: c }); if !all { break } }
    for (value, index) in [(0xffu8, 7usize), (0x80, 0), (0xc0, 65_534), (0xf5, usize::MAX >> 1)] { leaf!(Utf8Error, Utf8Error { value, index }); if !all { break } }
    for index in [11usize, 0, 65_534] { leaf!(CStringDecodeError, CStringDecodeError { index }); if !all { break } }
    leaf!(NonZeroDecodeError, NonZeroDecodeError);
    for (capacity, len) in [(4usize, 9usize), (0, 1), (65_534, 65_535), (1, usize::MAX >> 1)] { leaf!(LengthError, LengthError { capacity, len }); if !all { break } }
    for timestamp in [i64::MIN, -1, i64::MAX] { leaf!(SystemTimeDecodeError, SystemTimeDecodeError { timestamp }); if !all { break } }
    macro_rules! disc { ($($t:ty: $($x:expr),*;)*) => { $( for x in [$($x as $t),*] {
        leaf!(EnumDecodeError<$t, Infallible>, EnumDecodeError::<$t, Infallible>::UnassignedDiscriminant { value: x });
        if !all { break }
    } )* } }
    disc!(u8: 200, 0, 255; i8: -3, 127, -128; isize: -2, 5, 32767, -32768; bool: true, false;);
    if all {
        disc!(u16: 0x8001, 0xffff; i16: -2, 0x7fff, -0x8000; u32: 0x8000_0001u32; i32: -2, i32::MIN; u64: u64::MAX; i64: -2, i64::MIN; u128: u128::MAX, 1u128 << 127; i128: -2, i128::MIN, i128::MAX; usize: 65_535;);
        // (Beyond the signed numbers of the harness there is only this.)
    }
    // An error within another's chain but not convertible by itself.
    v.push(Leaf { make: Rc::new(|| dy(GenericDecodeError::UnassignedDiscriminant { value: 0xfeed })), nodes: vec![|e| e.is::<GenericDecodeError>()], model: RefErr::Gen(b(RefErr::GenDisc(0xfeed))) });
    v
}
fn encode_leaves(all: bool) -> Vec<Leaf<GenericEncodeError>> {
    let mut v: Vec<Leaf<GenericEncodeError>> = Vec::new();
    macro_rules! leaf { ($e:expr; $($t:ty),*) => { v.push(Leaf { make: Rc::new(move || en($e)), nodes: { let l: &[Is] = is!($($t),*); l.to_vec() }, model: Norm::norm($e) }) } }
    for n in [65_536usize, 65_537, 70_000, usize::MAX, 1 << 32] { leaf!(UsizeEncodeError(n); UsizeEncodeError); if !all { break } }
    for n in [32_768isize, -32_769, isize::MAX, isize::MIN] { leaf!(IsizeEncodeError(n); IsizeEncodeError); if !all { break } }
    leaf!(RefCellEncodeError::<Infallible>::BadBorrow(RefCell::new(0).try_borrow_conflict()); RefCellEncodeError<Infallible>, std::cell::BorrowError);
    leaf!(RefCellEncodeError::<UsizeEncodeError>::BadBorrow(RefCell::new(0).try_borrow_conflict()); RefCellEncodeError<UsizeEncodeError>, std::cell::BorrowError);
    leaf!(EnumEncodeError::<usize, Infallible>::BadDiscriminant(UsizeEncodeError(65_999)); EnumEncodeError<usize, Infallible>, UsizeEncodeError);
    leaf!(EnumEncodeError::<isize, UsizeEncodeError>::BadDiscriminant(IsizeEncodeError(-40_000)); EnumEncodeError<isize, UsizeEncodeError>, IsizeEncodeError);
    leaf!(EnumEncodeError::<isize, IsizeEncodeError>::BadDiscriminant(IsizeEncodeError(40_000)); EnumEncodeError<isize, IsizeEncodeError>, IsizeEncodeError);
    v
}
trait Conflict { fn try_borrow_conflict(&self) -> std::cell::BorrowError; }
impl Conflict for RefCell<i32> { fn try_borrow_conflict(&self) -> std::cell::BorrowError { let _g = self.borrow_mut(); self.try_borrow().unwrap_err() } }

/// The nodes of the chain of an error, with stand-ins replaced by what they
/// stand for.
fn typed<'a, G: 'static>(e: &'a (dyn Error + 'static)) -> Vec<&'a (dyn Error + 'static)> {
    fn real<'a, G: 'static>(e: &'a (dyn Error + 'static)) -> &'a (dyn Error + 'static) { match e.downcast_ref::<Any<G>>() { Some(a) => real::<G>(a.0.as_err()), None => e } }
    let mut v = vec![real::<G>(e)];
    let mut e = v[0];
    while let Some(s) = e.source() { e = real::<G>(s); v.push(e); if v.len() > 100 { break } }
    v
}

fn nested<G: Error + Norm + From<Any<G>> + 'static>(cx: &mut Cx, layers: &[Layer<G>], leaves: &[Leaf<G>], max: usize) {
    let mut todo: Vec<Vec<usize>> = vec![vec![]];
    while let Some(path) = todo.pop() {
        if path.len() < max { for i in 0..layers.len() { let mut p = path.clone(); p.push(i); todo.push(p) } }
        for (k, leaf) in leaves.iter().enumerate() {
            // From the inside out.
            let make = || path.iter().fold((leaf.make)(), |e, i| (layers[*i].wrap)(e));
            let model = path.iter().fold(leaf.model.clone(), |e, i| (layers[*i].model)(e));
            let mut nodes: Vec<Is> = leaf.nodes.clone();
            for i in &path {
                if layers[*i].generic {
                    // Only the innermost cause remains.
                    nodes = layers[*i].nodes.iter().copied().chain(if matches!(innermost(&leaf.model), RefErr::Disc(..) | RefErr::GenDisc(_)) { None } else { leaf.nodes.last().copied() }).collect();
                } else {
                    nodes = layers[*i].nodes.iter().copied().chain(nodes).collect();
                }
            }
            let names: Vec<&str> = path.iter().map(|i| layers[*i].name).collect();
            cx.case(fp_of(&(&path, k)), || format!("{:?} in {names:?}", leaf.model), |_| {
                let e = make();
                let t = typed::<G>(&e);
                ensure!(t.len() == nodes.len() && t.iter().zip(&nodes).all(|(e, is)| is(*e)), "chain of sources", "{} members {:?}, expected {}", t.len(), t.iter().map(|e| e.to_string()).collect::<Vec<_>>(), nodes.len());
                // No member may stand for another one.
                for (i, a) in t.iter().enumerate() { for (k, c) in t[..i].iter().enumerate() { ensure!(!std::ptr::eq(*a as *const _ as *const u8, *c as *const _ as *const u8) || !nodes[k](*a), "chain of sources repeats an error", "{a}") } }
                let c: Vec<Node> = t.iter().map(|e| node(*e)).collect();
                drop(t);
                let spec = make().norm();
                ensure!(spec == model, "harness: model", "{spec:?} {model:?}");
                let g: G = make().into();
                let gen_chain = chain(&g);
                check_why(Why { spec, gen: g.norm(), chain: c, gen_chain })
            });
            cx.states += 1;
            cx.transitions += path.len() as u64;
        }
    }
}
// ---- Real errors ----

derived_struct!(unbounded WithResult { r: Result<char, char>, l: Vec<Result<u8, u8>>, s: SizedStr<2> });
derived_enum!(unbounded #[repr(i16)] Deep: i16 { A(5) = 5 { v: Vec<SizedSlice<char, 2>> }, B(6) { o: Option<WithResult> } });
derived_enum!(unbounded #[repr(isize)] DeepIsize: isize { A(0) { v: RefCell<Vec<usize>> }, B(300) = 300 { b: Bound<NonZero<u8>> } });

macro_rules! real { ($f:ident; $($t:ty),* $(,)?) => { vec![$($f::<$t>(stringify!($t))),*] } }
fn more() -> Vec<Entry> {
    let mut v = real!(unbounded;
        WithResult, Deep, DeepIsize, Vec<Deep>, Option<DeepIsize>, Vec<WithResult>,
        Vec<Result<char, char>>, SizedSlice<Vec<Bound<char>>, 2>, RefCell<Vec<RefCell<usize>>>, Option<Vec<Result<NonZero<u8>, NonZero<u16>>>>, [Vec<SizedStr<3>>; 2],
        LinkedList<Vec<LinkedList<char>>>, Vec<Map<char, char>>, Result<Vec<char>, Vec<char>>, Bound<Vec<SizedStr<2>>>,
        Vec<Vec<Vec<char>>>, Vec<[Option<char>; 2]>, Range<RefCell<usize>>, Vec<Range<char>>, (Vec<char>, Vec<char>), Box<Vec<Rc<String>>>, Option<Result<Bound<char>, Bound<char>>>,
    );
    v.extend(real!(full; SizedSlice<SizedSlice<SizedSlice<char, 2>, 2>, 2>, SizedSlice<DeepIsizeLike, 2>));
    v
}
derived_enum!(#[repr(usize)] DeepIsizeLike: usize { A(1) = 1 { x: SizedSlice<isize, 2> }, B(70000) = 70000 { } });

fn real_errors(cx: &mut Cx, e: &Entry, deep: bool) {
    if let Some(why) = &e.why_dec {
        let (devs, points, lvl) = if deep { (1, if cx.thorough { 14 } else { 8 }, 1) } else { bounds(e, cx.thorough) };
        sequences(&e.ty, devs, points, lvl, |data, want| {
            if want.is_ok() { return }
            cx.case(fp_of(data), || format!("{} from {}", e.name, hex(data)), |_| {
                // (Whether it is refused as it must be is for C05.)
                match guard(|| why(data)) { Ok(Some(w)) => check_why(w), Ok(None) => Ok("decoded"), Err(_) => Ok("panicked") }
            });
        });
    }
    if let Some(why) = &e.why_enc {
        let mut buf = vec![0u8; 1 << 23];
        for v in bad_values(&e.ty, !deep as u32) {
            cx.case(fp_of(&v), || format!("{} {}", e.name, show(&v)), |_| {
                let Some(w) = why(&v, &mut buf) else { return Ok("encoded") };
                check_why(w)
            });
        }
    }
}

// ---- Raw discriminants ----

fn raw<T: Disc + Sub + PrimitiveDiscriminant + Decode<Error = Infallible> + Debug + Display + 'static>(s: &mut Vec<Section>, name: &'static str) {
    s.push(section(format!("raw value of {name}"), |cx| {
        for v in vh::gen::values(&T::ty_of(), 3) {
            cx.case(fp_of(&v), || show(&v), |_| {
                let make = || EnumDecodeError::<T, CharDecodeError>::UnassignedDiscriminant { value: T::build(&v) };
                let spec = make().norm();
                let RefErr::Disc(_, wide) = spec else { unreachable!() };
                let g: GenericDecodeError = make().into();
                let GenericDecodeError::UnassignedDiscriminant { value } = g else { bad!("an unassigned discriminant becomes something else", "{g:?}") };
                ensure!(value == wide, "raw discriminant", "{value:#x} instead of {wide:#x}");
                ensure!(mentions(&g.to_string(), wide as i128, wide), "message does not name what offends", "{g}");
                let m = make();
                ensure!(m.source().is_none() && names(&m.to_string(), &spec), "message does not name what offends", "{m}");
                Ok("zero-extended")
            });
        }
    }));
}
trait TyOf { fn ty_of() -> Ty; }
impl<T: Sub> TyOf for T {
    /// Sizes are explored beyond what they encode to.
    fn ty_of() -> Ty { match T::ty() { Ty::Usize => Ty::UInt(8), Ty::Isize => Ty::Int(8), t => t } }
}

fn main() {
    run(|| {
        let mut s = Vec::new();
        s.push(section("decode errors, nested", |cx| nested(cx, &decode_layers(), &decode_leaves(false), if cx.thorough { 5 } else { 4 })));
        s.push(section("encode errors, nested", |cx| nested(cx, &encode_layers(), &encode_leaves(false), if cx.thorough { 5 } else { 4 })));
        s.push(section("decode errors, values", |cx| nested(cx, &decode_layers(), &decode_leaves(true), 2)));
        s.push(section("encode errors, values", |cx| nested(cx, &encode_layers(), &encode_leaves(true), 2)));
        for (e, deep) in reg::all().into_iter().map(|e| (e, false)).chain(more().into_iter().map(|e| (e, true))) {
            if e.why_dec.is_none() && e.why_enc.is_none() || e.heavy { continue }
            let e = Rc::new(e);
            s.push(section(format!("real errors of {}", e.name), move |cx| real_errors(cx, &e, deep)));
        }
        raw::<u8>(&mut s, "u8"); raw::<u16>(&mut s, "u16"); raw::<u32>(&mut s, "u32"); raw::<u64>(&mut s, "u64"); raw::<u128>(&mut s, "u128");
        raw::<i8>(&mut s, "i8"); raw::<i16>(&mut s, "i16"); raw::<i32>(&mut s, "i32"); raw::<i64>(&mut s, "i64"); raw::<i128>(&mut s, "i128");
        raw::<usize>(&mut s, "usize"); raw::<isize>(&mut s, "isize");
        s.push(section("simple errors", |cx| {
            let mut one = |what: String, e: Box<dyn Error>, leaf: RefErr, inner: bool| cx.case(fp_of(&what), || what.clone(), |_| {
                ensure!(names(&e.to_string(), &leaf), "message does not name what offends", "{e}");
                match e.source() {
                    None => ensure!(!inner, "source is missing", "{e}"),
                    Some(x) => { ensure!(inner, "source of a simple error", "{x}"); ensure!(node(x).leaf.as_ref() == Some(&leaf) && x.source().is_none(), "source", "{x}") }
                }
                Ok(if inner { "wrapped" } else { "simple" })
            });
            for v in 0..=255u8 { for i in [0usize, 9, 1000, 65_535] {
                one(format!("Utf8Error {v} {i}"), Box::new(Utf8Error { value: v, index: i }), RefErr::Utf8(v, i), false);
                one(format!("StringError Utf8Error {v} {i}"), Box::new(StringError::BadUtf8(Utf8Error { value: v, index: i })), RefErr::Utf8(v, i), true);
            } }
            for v in 0..=65535u16 {
                one(format!("Utf16Error {v}"), Box::new(Utf16Error { value: v, index: 77 }), RefErr::Utf16(v, 77), false);
                one(format!("StringError Utf16Error {v}"), Box::new(StringError::BadUtf16(Utf16Error { value: v, index: 66 })), RefErr::Utf16(v, 66), true);
            }
            for c in vh::gen::words(4, 2) { one(format!("CharDecodeError {c}"), Box::new(CharDecodeError { code_point: c as u32 }), RefErr::Char(c as u32), false) }
            for n in vh::gen::words(8, 2) {
                let n = n as u64;
                one(format!("UsizeEncodeError {n}"), Box::new(UsizeEncodeError(n as usize)), RefErr::Usize(n as u128), false);
                one(format!("IsizeEncodeError {n}"), Box::new(IsizeEncodeError(n as isize)), RefErr::Isize(n as i64 as i128), false);
                one(format!("SystemTimeDecodeError {n}"), Box::new(SystemTimeDecodeError { timestamp: n as i64 }), RefErr::Time(n as i64), false);
                one(format!("CStringDecodeError {n}"), Box::new(CStringDecodeError { index: n as usize }), RefErr::Nul(n as usize), false);
                for m in [0usize, 5, 65_535, usize::MAX] {
                    let l = RefErr::Len { cap: n as usize, len: m };
                    one(format!("LengthError {n} {m}"), Box::new(LengthError { capacity: n as usize, len: m }), l.clone(), false);
                    one(format!("StringError LengthError {n} {m}"), Box::new(StringError::SmallBuffer(LengthError { capacity: n as usize, len: m })), l, true);
                }
            }
            one("NonZeroDecodeError".into(), Box::new(NonZeroDecodeError), RefErr::Zero, false);
            for a in [3usize, 400, usize::MAX] { for p in [1usize, 50, 65_536] { for n in [2usize, 6000, 1 << 40] {
                for (k, e) in [Box::new(InputError { capacity: a, position: p, count: n }) as Box<dyn Error>, Box::new(OutputError { capacity: a, position: p, count: n })].into_iter().enumerate() {
                    cx.case(fp_of(&(a, p, n, k)), || format!("stream error {a} {p} {n}"), |_| {
                        let m = e.to_string();
                        for x in [a, p, n] { ensure!(mentions(&m, x as i128, x as u128), "message does not name what offends", "{m}") }
                        ensure!(e.source().is_none(), "source of a simple error", "{m}");
                        Ok("stream error")
                    });
                }
            } } }
        }));
        s
    });
}
