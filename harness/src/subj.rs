//! Real types of the library's user, bound to the model's types and values.

use crate::model::{opt, Ty, Val};
use oct::{SizedSlice, SizedStr};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet, LinkedList};
use std::ffi::CString;
use std::hash::{BuildHasherDefault, Hash};
use std::marker::PhantomData;
use std::net::*;
use std::num::{NonZero, Saturating, Wrapping};
use std::ops::{Bound, Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};
use std::rc::Rc;
use std::sync::atomic::*;
use std::sync::{Arc, Mutex, RwLock};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub trait Sub: Sized {
    fn ty() -> Ty;
    fn build(v: &Val) -> Self;
    fn val(&self) -> Val;
}

/// A hasher with a fixed state, so that runs are reproducible.
#[derive(Default, Clone)]
pub struct FixHash(u64);
impl std::hash::Hasher for FixHash {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for c in b { self.0 = (self.0 ^ *c as u64).wrapping_mul(0x100000001b3).rotate_left(21) } }
}
pub type Map<K, V> = HashMap<K, V, BuildHasherDefault<FixHash>>;
pub type Set<K> = HashSet<K, BuildHasherDefault<FixHash>>;

macro_rules! uint { ($($t:ty: $ty:expr),*) => { $(
    impl Sub for $t {
        fn ty() -> Ty { $ty }
        fn build(v: &Val) -> Self { let Val::U(x) = v else { panic!("{v:?}") }; *x as $t }
        fn val(&self) -> Val { Val::U(*self as u128) }
    }
)* } }
macro_rules! int { ($($t:ty: $ty:expr),*) => { $(
    impl Sub for $t {
        fn ty() -> Ty { $ty }
        fn build(v: &Val) -> Self { let Val::I(x) = v else { panic!("{v:?}") }; *x as $t }
        fn val(&self) -> Val { Val::I(*self as i128) }
    }
)* } }
uint!(u8: Ty::UInt(1), u16: Ty::UInt(2), u32: Ty::UInt(4), u64: Ty::UInt(8), u128: Ty::UInt(16), usize: Ty::Usize);
int!(i8: Ty::Int(1), i16: Ty::Int(2), i32: Ty::Int(4), i64: Ty::Int(8), i128: Ty::Int(16), isize: Ty::Isize);

macro_rules! nonzero { ($($t:ty),*) => { $(
    impl Sub for NonZero<$t> {
        fn ty() -> Ty { Ty::NonZero(Box::new(<$t>::ty())) }
        fn build(v: &Val) -> Self { NonZero::new(<$t>::build(v)).unwrap() }
        fn val(&self) -> Val { self.get().val() }
    }
)* } }
nonzero!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

macro_rules! atomic { ($($a:ty: $t:ty),*) => { $(
    impl Sub for $a {
        fn ty() -> Ty { <$t>::ty() }
        fn build(v: &Val) -> Self { <$a>::new(<$t>::build(v)) }
        fn val(&self) -> Val { self.load(Ordering::SeqCst).val() }
    }
)* } }
atomic!(
    AtomicBool: bool, AtomicU8: u8, AtomicI8: i8, AtomicU16: u16, AtomicI16: i16, AtomicU32: u32, AtomicI32: i32,
    AtomicU64: u64, AtomicI64: i64, AtomicUsize: usize, AtomicIsize: isize
);

impl Sub for () {
    fn ty() -> Ty { Ty::Unit }
    fn build(_: &Val) {}
    fn val(&self) -> Val { Val::Unit }
}
impl Sub for RangeFull {
    fn ty() -> Ty { Ty::Unit }
    fn build(_: &Val) -> Self { .. }
    fn val(&self) -> Val { Val::Unit }
}
impl<T> Sub for PhantomData<T> {
    fn ty() -> Ty { Ty::Unit }
    fn build(_: &Val) -> Self { PhantomData }
    fn val(&self) -> Val { Val::Unit }
}
impl Sub for std::marker::PhantomPinned {
    fn ty() -> Ty { Ty::Unit }
    fn build(_: &Val) -> Self { std::marker::PhantomPinned }
    fn val(&self) -> Val { Val::Unit }
}
impl Sub for bool {
    fn ty() -> Ty { Ty::Bool }
    fn build(v: &Val) -> Self { let Val::B(x) = v else { panic!("{v:?}") }; *x }
    fn val(&self) -> Val {
        // Through memory, so that an invalid bool would show.
        let b = unsafe { (self as *const bool).cast::<u8>().read() };
        if b > 1 { Val::U(b as u128) } else { Val::B(b == 1) }
    }
}
impl Sub for f32 {
    fn ty() -> Ty { Ty::F32 }
    fn build(v: &Val) -> Self { let Val::F(x) = v else { panic!("{v:?}") }; f32::from_bits(*x as u32) }
    fn val(&self) -> Val { Val::F(self.to_bits() as u64) }
}
impl Sub for f64 {
    fn ty() -> Ty { Ty::F64 }
    fn build(v: &Val) -> Self { let Val::F(x) = v else { panic!("{v:?}") }; f64::from_bits(*x) }
    fn val(&self) -> Val { Val::F(self.to_bits()) }
}
impl Sub for char {
    fn ty() -> Ty { Ty::Char }
    fn build(v: &Val) -> Self { let Val::C(x) = v else { panic!("{v:?}") }; *x }
    fn val(&self) -> Val {
        let c = unsafe { (self as *const char).cast::<u32>().read() };
        match char::from_u32(c) { Some(c) => Val::C(c), None => Val::U(c as u128) }
    }
}

macro_rules! wrap { ($($w:ty, $v:ident => $new:expr, $r:ident => $get:expr);* $(;)?) => { $(
    impl<T: Sub> Sub for $w {
        fn ty() -> Ty { T::ty() }
        fn build(v: &Val) -> Self { let $v = T::build(v); $new }
        fn val(&self) -> Val { let $r = self; $get }
    }
)* } }
wrap! {
    Box<T>, v => Box::new(v), r => (**r).val();
    Rc<T>, v => Rc::new(v), r => (**r).val();
    Arc<T>, v => Arc::new(v), r => (**r).val();
    Mutex<T>, v => Mutex::new(v), r => r.lock().unwrap().val();
    RwLock<T>, v => RwLock::new(v), r => r.read().unwrap().val();
    Wrapping<T>, v => Wrapping(v), r => r.0.val();
    Saturating<T>, v => Saturating(v), r => r.0.val();
}
impl<T: Sub + Copy> Sub for Cell<T> {
    fn ty() -> Ty { T::ty() }
    fn build(v: &Val) -> Self { Cell::new(T::build(v)) }
    fn val(&self) -> Val { self.get().val() }
}
impl<T: Sub> Sub for RefCell<T> {
    fn ty() -> Ty { Ty::RefCell(Box::new(T::ty())) }
    fn build(v: &Val) -> Self { RefCell::new(T::build(v)) }
    fn val(&self) -> Val { self.borrow().val() }
}
impl<B: ?Sized + ToOwned<Owned: Sub>> Sub for Cow<'static, B> {
    fn ty() -> Ty { <B::Owned as Sub>::ty() }
    fn build(v: &Val) -> Self { Cow::Owned(<B::Owned as Sub>::build(v)) }
    fn val(&self) -> Val {
        match self { Cow::Owned(o) => o.val(), Cow::Borrowed(b) => ToOwned::to_owned(*b).val() }
    }
}

impl<T: Sub> Sub for Option<T> {
    fn ty() -> Ty { Ty::Opt(Box::new(T::ty())) }
    fn build(v: &Val) -> Self { let Val::Opt(x) = v else { panic!("{v:?}") }; x.as_ref().map(|x| T::build(x)) }
    fn val(&self) -> Val { opt(self.as_ref().map(|x| x.val())) }
}
impl<T: Sub, E: Sub> Sub for Result<T, E> {
    fn ty() -> Ty { Ty::Res(Box::new(T::ty()), Box::new(E::ty())) }
    fn build(v: &Val) -> Self {
        match v { Val::Ok(x) => Ok(T::build(x)), Val::Err(x) => Err(E::build(x)), v => panic!("{v:?}") }
    }
    fn val(&self) -> Val {
        match self { Ok(x) => Val::Ok(Box::new(x.val())), Err(x) => Val::Err(Box::new(x.val())) }
    }
}
impl<T: Sub> Sub for Bound<T> {
    fn ty() -> Ty { Ty::Bound(Box::new(T::ty())) }
    fn build(v: &Val) -> Self {
        let Val::Var(i, f) = v else { panic!("{v:?}") };
        match i { 0 => Bound::Included(T::build(&f[0])), 1 => Bound::Excluded(T::build(&f[0])), _ => Bound::Unbounded }
    }
    fn val(&self) -> Val {
        match self {
            Bound::Included(x) => Val::Var(0, vec![x.val()]),
            Bound::Excluded(x) => Val::Var(1, vec![x.val()]),
            Bound::Unbounded => Val::Var(2, vec![]),
        }
    }
}

pub fn list(v: &Val) -> &[Val] { let Val::L(l) = v else { panic!("{v:?}") }; l }

impl<T: Sub, const N: usize> Sub for [T; N] {
    fn ty() -> Ty { Ty::Arr(Box::new(T::ty()), N) }
    fn build(v: &Val) -> Self { let l = list(v); assert_eq!(l.len(), N); std::array::from_fn(|i| T::build(&l[i])) }
    fn val(&self) -> Val { Val::L(self.iter().map(|x| x.val()).collect()) }
}
impl<T: Sub> Sub for Vec<T> {
    fn ty() -> Ty { Ty::Seq(Box::new(T::ty()), None) }
    fn build(v: &Val) -> Self { list(v).iter().map(|x| T::build(x)).collect() }
    fn val(&self) -> Val { Val::L(self.iter().map(|x| x.val()).collect()) }
}
impl<T: Sub> Sub for LinkedList<T> {
    fn ty() -> Ty { Ty::Seq(Box::new(T::ty()), None) }
    fn build(v: &Val) -> Self { list(v).iter().map(|x| T::build(x)).collect() }
    fn val(&self) -> Val { Val::L(self.iter().map(|x| x.val()).collect()) }
}
impl<T: Sub, const N: usize> Sub for SizedSlice<T, N> {
    fn ty() -> Ty { Ty::Seq(Box::new(T::ty()), Some(N)) }
    fn build(v: &Val) -> Self {
        let l = list(v);
        assert!(l.len() <= N);
        l.iter().map(|x| T::build(x)).collect()
    }
    fn val(&self) -> Val { assert!(self.len() <= N); Val::L(self.as_slice().iter().map(|x| x.val()).collect()) }
}
impl<K: Sub + Eq + Hash, V: Sub> Sub for Map<K, V> {
    fn ty() -> Ty { Ty::Map(Box::new(K::ty()), Box::new(V::ty())) }
    fn build(v: &Val) -> Self { list(v).iter().map(|e| (K::build(&list(e)[0]), V::build(&list(e)[1]))).collect() }
    fn val(&self) -> Val { Val::L(self.iter().map(|(k, v)| Val::L(vec![k.val(), v.val()])).collect()) }
}
impl<K: Sub + Eq + Hash> Sub for Set<K> {
    fn ty() -> Ty { Ty::Set(Box::new(K::ty())) }
    fn build(v: &Val) -> Self { list(v).iter().map(|e| K::build(e)).collect() }
    fn val(&self) -> Val { Val::L(self.iter().map(|k| k.val()).collect()) }
}
fn checked_str(b: &[u8]) -> Val {
    match crate::model::utf8_valid_up_to(b) {
        None => Val::S(String::from_utf8(b.to_vec()).unwrap()),
        Some(_) => Val::Z(b.to_vec()),
    }
}
impl Sub for String {
    fn ty() -> Ty { Ty::Str(None) }
    fn build(v: &Val) -> Self { let Val::S(s) = v else { panic!("{v:?}") }; s.clone() }
    fn val(&self) -> Val { checked_str(self.as_bytes()) }
}
impl<const N: usize> Sub for SizedStr<N> {
    fn ty() -> Ty { Ty::Str(Some(N)) }
    fn build(v: &Val) -> Self {
        let Val::S(s) = v else { panic!("{v:?}") };
        match SizedStr::new(s) { Ok(s) => s, Err(_) => panic!("sized string refuses {s:?}") }
    }
    fn val(&self) -> Val { assert!(self.len() <= N); checked_str(self.as_bytes()) }
}
impl Sub for CString {
    fn ty() -> Ty { Ty::CStr }
    fn build(v: &Val) -> Self { let Val::Z(s) = v else { panic!("{v:?}") }; CString::new(s.clone()).unwrap() }
    fn val(&self) -> Val {
        let b = self.as_bytes_with_nul();
        assert!(b.last() == Some(&0), "C string without terminator");
        Val::Z(b[..b.len() - 1].to_vec())
    }
}

macro_rules! ranges { ($($r:ident { $($f:ident),* } $($get:ident),*);*) => { $(
    impl<T: Sub> Sub for $r<T> {
        fn ty() -> Ty { let mut l = vec![$({ let $f = T::ty(); $f }),*]; if l.len() == 1 { l.pop().unwrap() } else { Ty::Tup(l) } }
        #[allow(unused_assignments, unused_mut)]
        fn build(v: &Val) -> Self {
            let l: Vec<Val> = if [$(stringify!($f)),*].len() == 1 { vec![v.clone()] } else { list(v).to_vec() };
            let mut i = 0;
            $( let $f = T::build(&l[i]); i += 1; )*
            $r { $($f),* }
        }
        fn val(&self) -> Val { let mut l = vec![$(self.$f.val()),*]; if l.len() == 1 { l.pop().unwrap() } else { Val::L(l) } }
    }
)* } }
ranges!(Range { start, end }; RangeFrom { start }; RangeTo { end }; RangeToInclusive { end });
impl<T: Sub> Sub for RangeInclusive<T> {
    fn ty() -> Ty { Ty::Tup(vec![T::ty(), T::ty()]) }
    fn build(v: &Val) -> Self { let l = list(v); RangeInclusive::new(T::build(&l[0]), T::build(&l[1])) }
    fn val(&self) -> Val { Val::L(vec![self.start().val(), self.end().val()]) }
}

macro_rules! tuple { ($($t:ident $i:tt),*) => {
    impl<$($t: Sub),*> Sub for ($($t,)*) {
        fn ty() -> Ty { Ty::Tup(vec![$($t::ty()),*]) }
        fn build(v: &Val) -> Self { let l = list(v); ($($t::build(&l[$i]),)*) }
        fn val(&self) -> Val { Val::L(vec![$(self.$i.val()),*]) }
    }
} }
tuple!(A 0);
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);
tuple!(A 0, B 1, C 2, D 3, E 4);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);

impl Sub for Duration {
    fn ty() -> Ty { Ty::Dur }
    fn build(v: &Val) -> Self { let Val::Dur(s, n) = v else { panic!("{v:?}") }; Duration::new(*s, *n) }
    fn val(&self) -> Val { Val::Dur(self.as_secs(), self.subsec_nanos()) }
}
impl Sub for SystemTime {
    fn ty() -> Ty { Ty::Time }
    fn build(v: &Val) -> Self {
        let Val::T(ns) = v else { panic!("{v:?}") };
        let a = ns.unsigned_abs();
        let d = Duration::new((a / 1_000_000_000) as u64, (a % 1_000_000_000) as u32);
        if *ns >= 0 { UNIX_EPOCH + d } else { UNIX_EPOCH - d }
    }
    fn val(&self) -> Val {
        let ns = |d: Duration| d.as_nanos() as i128;
        Val::T(match self.duration_since(UNIX_EPOCH) { Ok(d) => ns(d), Err(e) => -ns(e.duration()) })
    }
}
impl Sub for Ipv4Addr {
    fn ty() -> Ty { Ty::V4 }
    fn build(v: &Val) -> Self { let Val::U(x) = v else { panic!("{v:?}") }; let b = (*x as u32).to_be_bytes(); Ipv4Addr::new(b[0], b[1], b[2], b[3]) }
    fn val(&self) -> Val { Val::U(u32::from_be_bytes(self.octets()) as u128) }
}
impl Sub for Ipv6Addr {
    fn ty() -> Ty { Ty::V6 }
    fn build(v: &Val) -> Self { let Val::U(x) = v else { panic!("{v:?}") }; Ipv6Addr::from(x.to_be_bytes()) }
    fn val(&self) -> Val { Val::U(u128::from_be_bytes(self.octets())) }
}
impl Sub for IpAddr {
    fn ty() -> Ty { Ty::Ip }
    fn build(v: &Val) -> Self {
        let Val::Var(i, f) = v else { panic!("{v:?}") };
        if *i == 0 { IpAddr::V4(Sub::build(&f[0])) } else { IpAddr::V6(Sub::build(&f[0])) }
    }
    fn val(&self) -> Val {
        match self { IpAddr::V4(a) => Val::Var(0, vec![a.val()]), IpAddr::V6(a) => Val::Var(1, vec![a.val()]) }
    }
}
impl Sub for SocketAddrV4 {
    fn ty() -> Ty { Ty::Sock4 }
    fn build(v: &Val) -> Self { let l = list(v); SocketAddrV4::new(Sub::build(&l[0]), Sub::build(&l[1])) }
    fn val(&self) -> Val { Val::L(vec![self.ip().val(), self.port().val()]) }
}
impl Sub for SocketAddrV6 {
    fn ty() -> Ty { Ty::Sock6 }
    fn build(v: &Val) -> Self {
        let l = list(v);
        SocketAddrV6::new(Sub::build(&l[0]), Sub::build(&l[1]), Sub::build(&l[2]), Sub::build(&l[3]))
    }
    fn val(&self) -> Val { Val::L(vec![self.ip().val(), self.port().val(), self.flowinfo().val(), self.scope_id().val()]) }
}
impl Sub for SocketAddr {
    fn ty() -> Ty { Ty::Sock }
    fn build(v: &Val) -> Self {
        let Val::Var(i, f) = v else { panic!("{v:?}") };
        if *i == 0 { SocketAddr::V4(Sub::build(&f[0])) } else { SocketAddr::V6(Sub::build(&f[0])) }
    }
    fn val(&self) -> Val {
        match self { SocketAddr::V4(a) => Val::Var(0, vec![a.val()]), SocketAddr::V6(a) => Val::Var(1, vec![a.val()]) }
    }
}
