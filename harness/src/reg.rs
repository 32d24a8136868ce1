//! The registry: one entry for each type instance under test.

use crate::err::{why_dec, why_enc, DecErr, EncErr, Norm, Why};
use crate::model::{RefErr, Ty, Val};
use crate::subj::*;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::{SizedSlice, SizedStr};
use std::borrow::Cow;
use std::cell::{Cell, LazyCell, RefCell};
use std::collections::LinkedList;
use std::ffi::{CStr, CString};
use std::marker::{PhantomData, PhantomPinned};
use std::net::*;
use std::num::{NonZero, Saturating, Wrapping};
use std::ops::{Bound, Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};
use std::rc::Rc;
use std::sync::atomic::*;
use std::sync::{Arc, LazyLock, Mutex, RwLock};
use std::time::{Duration, SystemTime};

type Enc = Box<dyn Fn(&Val, &mut Output) -> Result<(), RefErr>>;
type Dec = Box<dyn Fn(&mut Input) -> Result<Val, RefErr>>;
/// Decodes an object and encodes that very object again.
type Again = Box<dyn Fn(&mut Input, &mut Output) -> Result<(Val, Result<(), RefErr>), RefErr>>;
/// What the refusal of a value or of a sequence says, if the harness is built for it.
type WhyEnc = Box<dyn Fn(&Val, &mut [u8]) -> Option<Why>>;
type WhyDec = Box<dyn Fn(&[u8]) -> Option<Why>>;
/// Writes to and reads from a slot of the given capacity.
type InSlot = Box<dyn Fn(&Val, usize) -> (usize, Result<Val, RefErr>)>;

pub struct Entry {
    pub name: String,
    pub ty: Ty,
    pub max: Option<usize>,
    pub enc: Enc,
    pub dec: Option<Dec>,
    pub again: Option<Again>,
    pub slot: Option<InSlot>,
    pub why_enc: Option<WhyEnc>,
    pub why_dec: Option<WhyDec>,
    /// The value as iteration over the built object shows it.
    pub canon: Box<dyn Fn(&Val) -> Val>,
    /// Can be combined with others in streams and sweeps.
    pub heavy: bool,
}

fn clean(s: &str) -> String { s.split_whitespace().collect::<Vec<_>>().join("") }

fn base<T: Sub + Encode<Error: EncErr> + 'static>(name: &str) -> Entry {
    Entry {
        name: clean(name),
        ty: T::ty(),
        max: None,
        enc: Box::new(|v, o| T::build(v).encode(o).map_err(Norm::norm)),
        dec: None,
        again: None,
        slot: None,
        why_enc: Some(Box::new(|v, buf| {
            let t = T::build(v);
            let a = t.encode(&mut Output::new(buf)).err()?;
            let b = t.encode(&mut Output::new(buf)).err()?;
            why_enc(a, b)
        })),
        why_dec: None,
        canon: Box::new(|v| T::build(v).val()),
        heavy: false,
    }
}
pub fn enc_only<T: Sub + Encode<Error: EncErr> + 'static>(name: &str) -> Entry { base::<T>(name) }
pub fn unbounded<T: Sub + Encode<Error: EncErr> + Decode<Error: DecErr> + 'static>(name: &str) -> Entry {
    Entry {
        dec: Some(Box::new(|i| T::decode(i).map(|v| v.val()).map_err(Norm::norm))),
        again: Some(Box::new(|i, o| {
            let v = T::decode(i).map_err(Norm::norm)?;
            Ok((v.val(), v.encode(o).map_err(Norm::norm)))
        })),
        why_dec: Some(Box::new(|d| why_dec(T::decode(&mut Input::new(d)).err()?, T::decode(&mut Input::new(d)).err()?))),
        #[cfg(not(feature = "oa"))]
        slot: None,
        #[cfg(feature = "oa")]
        slot: Some(Box::new(|v, cap| {
            let mut s = oct::Slot::<T>::with_capacity(cap);
            if let Err(e) = s.write(T::build(v)) { return (0, Err(e.norm())) }
            (s.len(), s.read().map(|v| v.val()).map_err(Norm::norm))
        })),
        ..base::<T>(name)
    }
}
pub fn full<T: Sub + Encode<Error: EncErr> + SizedEncode + Decode<Error: DecErr> + 'static>(name: &str) -> Entry {
    Entry { max: Some(T::MAX_ENCODED_SIZE), ..unbounded::<T>(name) }
}
pub fn sized_enc<T: Sub + Encode<Error: EncErr> + SizedEncode + 'static>(name: &str) -> Entry {
    Entry { max: Some(T::MAX_ENCODED_SIZE), ..base::<T>(name) }
}
/// A form `F` of the values of `T` that can only be encoded.
pub fn form<T: Sub + 'static>(name: &str, max: Option<usize>, f: impl Fn(T, &mut Output) -> Result<(), RefErr> + 'static) -> Entry {
    Entry {
        name: clean(name), ty: T::ty(), max,
        enc: Box::new(move |v, o| f(T::build(v), o)),
        dec: None, again: None, slot: None, why_enc: None, why_dec: None, canon: Box::new(|v| T::build(v).val()), heavy: false,
    }
}
pub fn enc<T: Encode<Error: Norm> + ?Sized>(v: &T, o: &mut Output) -> Result<(), RefErr> { v.encode(o).map_err(Norm::norm) }

/// Declares derived structures together with their binding to the model.
#[macro_export]
macro_rules! derived_struct {
    (unbounded $(#[$m:meta])* $n:ident { $($f:ident: $t:ty),* $(,)? }) => { $crate::derived_struct!(@[Encode, Decode] $(#[$m])* $n { $($f: $t),* }); };
    ($(#[$m:meta])* $n:ident { $($f:ident: $t:ty),* $(,)? }) => { $crate::derived_struct!(@[Encode, Decode, SizedEncode] $(#[$m])* $n { $($f: $t),* }); };
    (@[$($d:ident),*] $(#[$m:meta])* $n:ident { $($f:ident: $t:ty),* }) => {
        #[derive($($d),*)]
        $(#[$m])*
        pub struct $n { $(pub $f: $t),* }
        impl Sub for $n {
            fn ty() -> Ty { Ty::Struct(vec![$(<$t as Sub>::ty()),*]) }
            #[allow(unused_variables, unused_mut)]
            fn build(v: &Val) -> Self {
                let mut l = list(v).iter();
                $(let $f = <$t as Sub>::build(l.next().unwrap());)*
                $n { $($f),* }
            }
            fn val(&self) -> Val { Val::L(vec![$(self.$f.val()),*]) }
        }
    };
}
#[macro_export]
macro_rules! derived_enum {
    (unbounded $(#[$m:meta])* $n:ident: $repr:ty { $($b:tt)* }) => { $crate::derived_enum!(@[Encode, Decode] $(#[$m])* $n: $repr { $($b)* }); };
    ($(#[$m:meta])* $n:ident: $repr:ty { $($b:tt)* }) => { $crate::derived_enum!(@[Encode, Decode, SizedEncode] $(#[$m])* $n: $repr { $($b)* }); };
    (@[$($der:ident),*] $(#[$m:meta])* $n:ident: $repr:ty { $($v:ident ($d:expr) $(= $e:tt)? { $($f:ident: $t:ty),* }),* $(,)? }) => {
        #[derive($($der),*)]
        $(#[$m])*
        pub enum $n { $($v { $($f: $t),* } $(= $e)?),* }
        impl Sub for $n {
            fn ty() -> Ty { Ty::Enum(Box::new(<$repr as Sub>::ty()), vec![$(($d, vec![$(<$t as Sub>::ty()),*])),*]) }
            #[allow(unused_variables, unused_mut, unused_assignments)]
            fn build(v: &Val) -> Self {
                let Val::Var(i, l) = v else { panic!("{v:?}") };
                let mut k = 0;
                $(
                    if k == *i {
                        let mut l = l.iter();
                        $(let $f = <$t as Sub>::build(l.next().unwrap());)*
                        return $n::$v { $($f),* };
                    }
                    k += 1;
                )*
                panic!("no such variant")
            }
            #[allow(unused_variables, unused_mut, unused_assignments)]
            fn val(&self) -> Val {
                let mut k = 0;
                $(
                    if let $n::$v { $($f),* } = self { return Val::Var(k, vec![$($f.val()),*]) }
                    k += 1;
                )*
                unreachable!()
            }
        }
    };
}

#[cfg(feature = "op")]
mod types {
    use super::*;
    derived_struct!(Unit0 { });
    derived_struct!(Point { x: u16, y: i32, tag: u8 });
    derived_struct!(Mixed { flag: bool, c: char, n: Option<u16>, s: SizedStr<5>, size: usize, nz: NonZero<u16> });
    derived_struct!(Nest { p: Point, e: Small, l: SizedSlice<Point, 2>, t: (u8, u8) });
    derived_enum!(#[repr(u8)] Small: u8 { A(0) { }, B(1) { x: u8 }, C(9) = 9 { c: char, p: Point }, D(10) { v: usize } });
    derived_enum!(Default16: isize { A(0) { }, B(1) { v: u32 }, C(2) { a: u8, b: u8, c: u16 } });
    derived_enum!(#[repr(u16)] Wide16: u16 { A(255) = 255 { }, B(256) { x: u8 }, C(0x1234) = 0x1234 { }, D(65535) = 65535 { s: SizedStr<3> } });
    derived_enum!(#[repr(u8)] Lopsided: u8 { A(0) { }, B(1) { a: [u8; 100] }, C(2) { v: u16 }, D(3) { } });
    derived_enum!(Lopsided2: isize { A(0) { s: SizedStr<40>, t: (u8, u128) }, B(1) { a: [u16; 9] } });
    derived_enum!(#[repr(i8)] SignedI8: i8 { A(3) = 3 { }, B(126) = 126 { v: i8 }, C(127) { v: i8 } });
    derived_enum!(#[repr(i64)] SignedI64: i64 { A(0) { }, B(0x0123_4567_89ab_cdef) = 0x0123_4567_89ab_cdef { v: i64 }, C(0x7fff_ffff_ffff_ffff) = 0x7fff_ffff_ffff_ffff { } });
    derived_enum!(#[repr(u32)] Wide32: u32 { A(0x0102_0304) = 0x0102_0304 { x: u32 }, B(0xffff_ffff) = 0xffff_ffff { } });
    derived_enum!(#[repr(usize)] ReprUsize: usize { A(7) = 7 { }, B(65535) = 65535 { x: u8 }, C(65536) { x: u8 }, D(4_294_967_296) = 4_294_967_296 { } });
    derived_enum!(#[repr(isize)] ReprIsize: isize { A(32766) = 32766 { }, B(32767) { x: u16 }, C(32768) { x: u16 } });
}
#[cfg(feature = "op")]
pub use types::*;

/// Without some of the library's features, types that lack an implementation
/// are left out: bounds that hold make the inherent function come first.
pub struct Probe<T>(PhantomData<T>);
impl<T: Sub + Encode<Error: EncErr> + SizedEncode + Decode<Error: DecErr> + 'static> Probe<T> { pub fn full(n: &str) -> Option<Entry> { Some(full::<T>(n)) } }
impl<T: Sub + Encode<Error: EncErr> + Decode<Error: DecErr> + 'static> Probe<T> { pub fn unbounded(n: &str) -> Option<Entry> { Some(unbounded::<T>(n)) } }
impl<T: Sub + Encode<Error: EncErr> + SizedEncode + 'static> Probe<T> { pub fn sized_enc(n: &str) -> Option<Entry> { Some(sized_enc::<T>(n)) } }
pub trait Absent {
    fn full(_: &str) -> Option<Entry> { None }
    fn unbounded(_: &str) -> Option<Entry> { None }
    fn sized_enc(_: &str) -> Option<Entry> { None }
}
impl<T> Absent for Probe<T> {}

#[cfg(not(all(feature = "oa", feature = "os", feature = "op")))]
macro_rules! list_of { ($l:ident, $f:ident; $($t:ty),* $(,)?) => { $( if let Some(e) = Probe::<$t>::$f(stringify!($t)) { $l.push(e) } )* } }
#[cfg(all(feature = "oa", feature = "os", feature = "op"))]
macro_rules! list_of { ($l:ident, $f:ident; $($t:ty),* $(,)?) => { $( $l.push($f::<$t>(stringify!($t))); )* } }

pub fn scalars() -> Vec<Entry> {
    let mut l = Vec::new();
    list_of!(l, full;
        (), bool, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, char,
        NonZero<u8>, NonZero<u16>, NonZero<u32>, NonZero<u64>, NonZero<u128>, NonZero<i8>, NonZero<i16>, NonZero<i32>,
        NonZero<i64>, NonZero<i128>, Duration, SystemTime, Ipv4Addr, Ipv6Addr, IpAddr, SocketAddrV4, SocketAddrV6, SocketAddr,
        PhantomData<u32>, RangeFull,
    );
    list_of!(l, full; NonZero<usize>, NonZero<isize>);
    list_of!(l, full;
        AtomicBool, AtomicU8, AtomicI8, AtomicU16, AtomicI16, AtomicU32, AtomicI32, AtomicU64, AtomicI64, AtomicUsize, AtomicIsize,
        Wrapping<u8>, Wrapping<i32>, Saturating<u16>, Saturating<i64>,
    );
    list_of!(l, unbounded; PhantomPinned);
    l
}

pub fn wrappers() -> Vec<Entry> {
    let mut l = Vec::new();
    list_of!(l, full;
        Box<u32>, Rc<i16>, Arc<u64>, Cell<u8>, RefCell<u16>, RefCell<usize>, Mutex<u32>, RwLock<i8>, Cow<'static, u16>, Mutex<RefCell<isize>>,
        Box<Rc<Arc<char>>>, Mutex<Option<bool>>,
        Option<u8>, Option<bool>, Option<char>, Option<Option<u16>>, Option<usize>, Option<()>, Option<[u8; 3]>, Option<NonZero<u8>>,
        Result<u8, u32>, Result<u64, u8>, Result<(), u16>, Result<char, char>, Result<NonZero<u8>, NonZero<u16>>, Result<[u8; 5], [u8; 0]>,
        Bound<u8>, Bound<char>, Bound<usize>, Bound<()>, Bound<Option<u32>>,
        Range<u8>, Range<usize>, Range<char>, RangeFrom<u16>, RangeInclusive<i32>, RangeInclusive<u8>, RangeTo<u64>, RangeToInclusive<char>,
        (u8,), (u8, i8), (u8, u16), (u16, u8, u32), (char, char), (usize, usize),
        (u8, u8, u8, u8), (u8, u16, u32, u64, u128), (u8, i8, u8, i8, u8, u16), (u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8),
        (u8, u8, u8, u8, u8, u8, u8, u8, u16), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8),
        (u8, u16, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32),
        [u8; 0], [u8; 1], [u8; 3], [u16; 2], [char; 2], [bool; 4], [usize; 3], [[u8; 2]; 2], [Option<u8>; 2], [(); 5], [u8; 300], [NonZero<u8>; 2], [isize; 300], [char; 300], [(); 300],
    );
    list_of!(l, full; Result<usize, usize>);
    // Every arity, with fields that all differ in size.
    macro_rules! arity { ($($t:ty;)*) => { $( l.push(Entry { heavy: true, ..full::<$t>(stringify!($t)) }); )* } }
    arity!(
        ([u8; 1], [u8; 2], [u8; 3]);
        ([u8; 1], [u8; 2], [u8; 3], [u8; 4]);
        ([u8; 1], [u8; 2], [u8; 3], [u8; 4], [u8; 5]);
        ([u8; 1], [u8; 2], [u8; 3], [u8; 4], [u8; 5], [u8; 6]);
        ([u8; 1], [u8; 2], [u8; 3], [u8; 4], [u8; 5], [u8; 6], [u8; 7]);
        ([u8; 1], [u8; 2], [u8; 3], [u8; 4], [u8; 5], [u8; 6], [u8; 7], [u8; 8]);
        ([u8; 1], [u8; 2], [u8; 3], [u8; 4], [u8; 5], [u8; 6], [u8; 7], [u8; 8], [u8; 9]);
        ([u8; 1], [u8; 2], [u8; 3], [u8; 4], [u8; 5], [u8; 6], [u8; 7], [u8; 8], [u8; 9], [u8; 10]);
        ([u8; 1], [u8; 2], [u8; 3], [u8; 4], [u8; 5], [u8; 6], [u8; 7], [u8; 8], [u8; 9], [u8; 10], [u8; 11]);
        ([u8; 1], [u8; 2], [u8; 3], [u8; 4], [u8; 5], [u8; 6], [u8; 7], [u8; 8], [u8; 9], [u8; 10], [u8; 11], [u8; 12]);
    );
    // Values of more than 255 bytes.
    arity!(
        Result<[u8; 300], [u8; 400]>;
        Result<[u8; 400], [u8; 300]>;
        Result<[u8; 1], [u8; 400]>;
        Result<[u8; 257], [u8; 8]>;
        Option<[u16; 200]>;
        Bound<[u8; 300]>;
        Range<[u8; 130]>;
        RangeInclusive<[u16; 70]>;
        RangeTo<[u8; 256]>;
        ([u8; 256], [u8; 257]);
        ([u8; 1], [u8; 70], [u8; 2], [u8; 255]);
        [[u8; 20]; 20];
        [Option<u64>; 40];
    );
    #[cfg(all(feature = "oa", feature = "os"))]
    arity!(Box<Mutex<[u64; 50]>>;);
    l
}

pub fn collections() -> Vec<Entry> {
    let mut l = Vec::new();
    list_of!(l, unbounded;
        Vec<u8>, Vec<u16>, Vec<u32>, Vec<char>, Vec<bool>, Vec<usize>, Vec<()>, Vec<Option<u8>>, Vec<Vec<u8>>, Vec<(u8, u16)>, Vec<String>, Vec<[u8; 2]>, Vec<NonZero<u8>>,
        Vec<Result<u8, u16>>, Vec<RefCell<u8>>,
        LinkedList<u8>, LinkedList<u32>, LinkedList<char>, LinkedList<usize>, LinkedList<Vec<u16>>, LinkedList<()>,
        String, CString, Cow<'static, str>, Cow<'static, [u16]>, Cow<'static, CStr>, Box<String>, Option<String>, Option<Vec<char>>, Mutex<Vec<u8>>, RefCell<Vec<usize>>,
        Map<u8, u16>, Map<u16, u8>, Map<u32, u8>, Map<char, char>, Map<bool, u8>, Map<usize, usize>, Map<String, String>,
        Set<u8>, Set<u32>, Set<char>, Set<usize>, Set<String>, Set<bool>,
        Vec<Map<u8, u8>>, Option<Set<u16>>, Range<String>, RangeInclusive<String>, RangeInclusive<(Box<u32>, Box<u32>)>, RangeInclusive<Vec<u16>>, RangeFrom<Vec<u8>>, RangeTo<String>, (Vec<u8>, Vec<u8>), [String; 2], Vec<IpAddr>, Bound<String>,
    );
    l
}

pub fn sized() -> Vec<Entry> {
    let mut l = Vec::new();
    list_of!(l, full;
        SizedSlice<u8, 0>, SizedSlice<u8, 1>, SizedSlice<u8, 4>, SizedSlice<u16, 3>, SizedSlice<char, 2>, SizedSlice<bool, 3>, SizedSlice<usize, 3>, SizedSlice<(), 4>, SizedSlice<u8, 300>, SizedSlice<usize, 300>, SizedSlice<char, 300>,
        SizedSlice<Option<u16>, 2>, SizedSlice<SizedSlice<u8, 2>, 2>, SizedSlice<SizedStr<2>, 2>, SizedSlice<(u8, u16), 2>, SizedSlice<NonZero<u32>, 2>, SizedSlice<[u8; 2], 3>, SizedSlice<IpAddr, 2>,
        SizedStr<0>, SizedStr<1>, SizedStr<2>, SizedStr<3>, SizedStr<4>, SizedStr<7>, SizedStr<16>, SizedStr<300>,
        Option<SizedStr<4>>, Result<SizedSlice<u8, 2>, SizedSlice<u16, 2>>, (SizedStr<3>, SizedStr<3>), [SizedStr<2>; 2], Mutex<SizedSlice<u8, 3>>, Box<SizedStr<4>>,
    );
    list_of!(l, unbounded; Vec<SizedStr<3>>, LinkedList<SizedSlice<u16, 2>>, SizedSlice<String, 3>, SizedSlice<Vec<u8>, 2>, SizedSlice<LinkedList<u8>, 2>, SizedSlice<Map<u8, u8>, 2>);
    for e in [full::<SizedSlice<[u8; 100], 5>>("SizedSlice<[u8; 100], 5>"), full::<Result<SizedStr<300>, SizedStr<301>>>("Result<SizedStr<300>, SizedStr<301>>"), full::<(SizedStr<200>, SizedStr<100>)>("(SizedStr<200>, SizedStr<100>)")] {
        l.push(Entry { heavy: true, ..e });
    }
    for e in [full::<SizedSlice<u8, 65535>>("SizedSlice<u8, 65535>"), full::<SizedSlice<u8, 131072>>("SizedSlice<u8, 131072>"), full::<SizedStr<65535>>("SizedStr<65535>"), full::<SizedStr<131072>>("SizedStr<131072>")] {
        l.push(Entry { heavy: true, ..e });
    }
    l
}

#[cfg(not(feature = "op"))]
pub fn derived() -> Vec<Entry> { vec![] }
#[cfg(feature = "op")]
pub fn derived() -> Vec<Entry> {
    let mut l = Vec::new();
    list_of!(l, full;
        Unit0, Point, Mixed, Nest, Small, Default16, Wide16, SignedI8, SignedI64, Wide32, ReprUsize, ReprIsize, Lopsided, Lopsided2,
        Option<Small>, [Small; 2], SizedSlice<Small, 3>, Box<Point>, (Point, Point),
    );
    list_of!(l, unbounded; Vec<Small>, Vec<Nest>, LinkedList<Default16>);
    l
}

/// Forms that can be encoded but not decoded: references, unsized and lazy.
pub fn forms() -> Vec<Entry> {
    fn leak<T>(v: T) -> &'static mut T { Box::leak(Box::new(v)) }
    let _ = leak::<u8>;
    let mut l = Vec::new();
    l.push(form::<u32>("&u32", Some(<&u32>::MAX_ENCODED_SIZE), |v, o| enc(&&v, o)));
    l.push(form::<u32>("&mut u32", Some(<&mut u32>::MAX_ENCODED_SIZE), |mut v, o| enc(&&mut v, o)));
    l.push(form::<usize>("&&usize", Some(<&&usize>::MAX_ENCODED_SIZE), |v, o| enc(&&&v, o)));
    #[cfg(feature = "op")]
    l.push(form::<Point>("&Point", Some(<&Point>::MAX_ENCODED_SIZE), |v, o| enc(&&v, o)));
    l.push(form::<Vec<u16>>("[u16]", None, |v, o| enc(&v[..], o)));
    l.push(form::<Vec<u8>>("[u8]", None, |v, o| enc(&v[..], o)));
    l.push(form::<Vec<usize>>("[usize]", None, |v, o| enc(&v[..], o)));
    l.push(form::<Vec<u8>>("&[u8]", None, |v, o| enc(&&v[..], o)));
    l.push(form::<Vec<u8>>("&mut [u8]", None, |mut v, o| enc(&&mut v[..], o)));
    #[cfg(feature = "oa")]
    l.push(form::<Vec<u16>>("Box<[u16]>", None, |v, o| enc(&v.into_boxed_slice(), o)));
    #[cfg(feature = "oa")]
    l.push(form::<Vec<u16>>("Rc<[u16]>", None, |v, o| enc(&Rc::<[u16]>::from(v), o)));
    #[cfg(feature = "oa")]
    l.push(form::<Vec<u16>>("Arc<[u16]>", None, |v, o| enc(&Arc::<[u16]>::from(v), o)));
    #[cfg(feature = "oa")]
    l.push(form::<Vec<u16>>("Cow<[u16]>::Borrowed", None, |v, o| enc(&Cow::Borrowed(&v[..]), o)));
    l.push(form::<[u16; 3]>("&[u16; 3]", Some(<&[u16; 3]>::MAX_ENCODED_SIZE), |v, o| enc(&&v, o)));
    l.push(form::<Vec<u8>>("&SizedSlice via AsRef", None, |v, o| { let s: SizedSlice<u8, 140_000> = v.iter().copied().collect(); enc(AsRef::<[u8]>::as_ref(&s), o) }));
    l.push(form::<String>("str", None, |v, o| enc(v.as_str(), o)));
    l.push(form::<String>("&str", None, |v, o| enc(&v.as_str(), o)));
    #[cfg(feature = "oa")]
    l.push(form::<String>("Box<str>", None, |v, o| enc(&v.into_boxed_str(), o)));
    #[cfg(feature = "oa")]
    l.push(form::<String>("Rc<str>", None, |v, o| enc(&Rc::<str>::from(v), o)));
    #[cfg(feature = "oa")]
    l.push(form::<String>("Arc<str>", None, |v, o| enc(&Arc::<str>::from(v), o)));
    #[cfg(feature = "oa")]
    l.push(form::<String>("Cow<str>::Borrowed", None, |v, o| enc(&Cow::Borrowed(&v[..]), o)));
    l.push(form::<CString>("CStr", None, |v, o| enc(v.as_c_str(), o)));
    l.push(form::<CString>("&CStr", None, |v, o| enc(&v.as_c_str(), o)));
    #[cfg(feature = "oa")]
    l.push(form::<CString>("Box<CStr>", None, |v, o| enc(&v.into_boxed_c_str(), o)));
    #[cfg(feature = "oa")]
    l.push(form::<CString>("Cow<CStr>::Borrowed", None, |v, o| enc(&Cow::Borrowed(v.as_c_str()), o)));
    #[cfg(feature = "oa")]
    l.push(form::<u16>("Cow<u16>::Borrowed", Some(<Cow<u16>>::MAX_ENCODED_SIZE), |v, o| enc(&Cow::Borrowed(&v), o)));
    #[cfg(feature = "os")]
    l.push(form::<Vec<u8>>("Mutex<[u8]>", None, |v, o| { let m = Mutex::new([0u8; 0]); let r: &Mutex<[u8]> = &m; if v.is_empty() { return enc(r, o) } enc(&Mutex::new(&v[..]), o) }));
    l.push(form::<RefCell<[u16; 3]>>("RefCell<[u16;3]>", Some(<RefCell<[u16; 3]>>::MAX_ENCODED_SIZE), |v, o| enc(&v, o)));
    #[cfg(feature = "os")]
    l.push(form::<Vec<u8>>("RwLock<&[u8]>", None, |v, o| enc(&RwLock::new(&v[..]), o)));
    l.push(form::<u64>("LazyCell<u64>", Some(<LazyCell<u64>>::MAX_ENCODED_SIZE), |v, o| {
            thread_local! { static V: Cell<u64> = const { Cell::new(0) } }
            V.with(|c| c.set(v));
            let l: LazyCell<u64> = LazyCell::new(|| V.with(|c| c.get()));
            enc(&l, o)
        }));
    #[cfg(feature = "os")]
    l.push(form::<u64>("LazyLock<u64>", Some(<LazyLock<u64>>::MAX_ENCODED_SIZE), |v, o| {
            thread_local! { static V: Cell<u64> = const { Cell::new(0) } }
            V.with(|c| c.set(v));
            let l: LazyLock<u64> = LazyLock::new(|| V.with(|c| c.get()));
            enc(&l, o)
        }));
    #[cfg(feature = "oa")]
    l.push(form::<String>("LazyCell<String>", None, |v, o| {
            thread_local! { static V: RefCell<String> = const { RefCell::new(String::new()) } }
            V.with(|c| *c.borrow_mut() = v);
            let l: LazyCell<String> = LazyCell::new(|| V.with(|c| c.take()));
            enc(&l, o)
        }));
    l
}

pub fn all() -> Vec<Entry> {
    let mut l = scalars();
    l.extend(wrappers());
    l.extend(collections());
    l.extend(sized());
    l.extend(derived());
    l.extend(forms());
    let mut seen = std::collections::HashSet::new();
    for e in &l { assert!(seen.insert(e.name.clone()), "duplicate entry {}", e.name) }
    l
}
