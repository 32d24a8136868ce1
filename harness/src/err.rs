//! Translation of the library's errors into the model's.

use crate::model::{zero_extend, RefErr, Ty};
use oct::decode::Decode;
use oct::encode::Encode;
use oct::error::*;
use std::convert::Infallible;

pub trait Norm {
    fn norm(self) -> RefErr;
}

fn bx(e: RefErr) -> Box<RefErr> { Box::new(e) }

/// Types that discriminants are stored in.
pub trait Disc: Copy {
    fn ty() -> Ty;
    fn disc(self) -> i128;
}
macro_rules! disc {
    ($($t:ty => $ty:expr),*) => { $(
        impl Disc for $t {
            fn ty() -> Ty { $ty }
            fn disc(self) -> i128 { self as i128 }
        }
    )* };
}
disc! {
    u8 => Ty::UInt(1), u16 => Ty::UInt(2), u32 => Ty::UInt(4), u64 => Ty::UInt(8), u128 => Ty::UInt(16), usize => Ty::Usize,
    i8 => Ty::Int(1), i16 => Ty::Int(2), i32 => Ty::Int(4), i64 => Ty::Int(8), i128 => Ty::Int(16), isize => Ty::Isize,
    bool => Ty::UInt(1)
}

impl Norm for Infallible {
    fn norm(self) -> RefErr { match self {} }
}
impl Norm for UsizeEncodeError {
    fn norm(self) -> RefErr { RefErr::Usize(self.0 as u128) }
}
impl Norm for IsizeEncodeError {
    fn norm(self) -> RefErr { RefErr::Isize(self.0 as i128) }
}
impl Norm for CharDecodeError {
    fn norm(self) -> RefErr { RefErr::Char(self.code_point) }
}
impl Norm for Utf8Error {
    fn norm(self) -> RefErr { RefErr::Utf8(self.value, self.index) }
}
impl Norm for Utf16Error {
    fn norm(self) -> RefErr { RefErr::Utf16(self.value, self.index) }
}
#[cfg(feature = "oa")]
impl Norm for CStringDecodeError {
    fn norm(self) -> RefErr { RefErr::Nul(self.index) }
}
impl Norm for NonZeroDecodeError {
    fn norm(self) -> RefErr { RefErr::Zero }
}
impl Norm for LengthError {
    fn norm(self) -> RefErr { RefErr::Len { cap: self.capacity, len: self.len } }
}
#[cfg(feature = "os")]
impl Norm for SystemTimeDecodeError {
    fn norm(self) -> RefErr { RefErr::Time(self.timestamp) }
}
impl Norm for StringError {
    fn norm(self) -> RefErr {
        match self {
            StringError::BadUtf8(e) => RefErr::Str(bx(e.norm())),
            StringError::BadUtf16(e) => RefErr::Str(bx(e.norm())),
            StringError::SmallBuffer(e) => RefErr::Str(bx(e.norm())),
            _ => RefErr::Refuse,
        }
    }
}
impl<E: Norm> Norm for ItemDecodeError<usize, E> {
    fn norm(self) -> RefErr { RefErr::Item(self.index, bx(self.error.norm())) }
}
impl<E: Norm> Norm for ItemEncodeError<usize, E> {
    fn norm(self) -> RefErr { RefErr::Item(self.index, bx(self.error.norm())) }
}
impl<L: Norm, I: Norm> Norm for CollectionDecodeError<L, I> {
    fn norm(self) -> RefErr {
        match self {
            CollectionDecodeError::BadLength(e) => RefErr::BadLen(bx(e.norm())),
            CollectionDecodeError::BadItem(e) => RefErr::BadItem(bx(e.norm())),
        }
    }
}
impl<L: Norm, I: Norm> Norm for CollectionEncodeError<L, I> {
    fn norm(self) -> RefErr {
        match self {
            CollectionEncodeError::BadLength(e) => RefErr::BadLen(bx(e.norm())),
            CollectionEncodeError::BadItem(e) => RefErr::BadItem(bx(e.norm())),
        }
    }
}
impl<D: Decode<Error: Norm> + Disc, F: Norm> Norm for EnumDecodeError<D, F> {
    fn norm(self) -> RefErr {
        match self {
            EnumDecodeError::InvalidDiscriminant(e) => RefErr::BadDisc(bx(e.norm())),
            EnumDecodeError::UnassignedDiscriminant { value } => {
                RefErr::Disc(value.disc(), zero_extend(&D::ty(), value.disc()))
            }
            EnumDecodeError::BadField(e) => RefErr::Field(bx(e.norm())),
        }
    }
}
impl<D: Encode<Error: Norm>, F: Norm> Norm for EnumEncodeError<D, F> {
    fn norm(self) -> RefErr {
        match self {
            EnumEncodeError::BadDiscriminant(e) => RefErr::BadDisc(bx(e.norm())),
            EnumEncodeError::BadField(e) => RefErr::Field(bx(e.norm())),
        }
    }
}
impl<E: Norm> Norm for RefCellEncodeError<E> {
    fn norm(self) -> RefErr {
        match self {
            RefCellEncodeError::BadBorrow(_) => RefErr::Borrow,
            RefCellEncodeError::BadValue(e) => RefErr::CellValue(bx(e.norm())),
        }
    }
}
impl Norm for std::cell::BorrowError {
    fn norm(self) -> RefErr { RefErr::Borrow }
}
impl Norm for GenericEncodeError {
    fn norm(self) -> RefErr {
        RefErr::Gen(bx(match self {
            GenericEncodeError::BadBorrow(_) => RefErr::Borrow,
            GenericEncodeError::LargeIsize(e) => e.norm(),
            GenericEncodeError::LargeUsize(e) => e.norm(),
            _ => RefErr::Refuse,
        }))
    }
}
impl Norm for GenericDecodeError {
    fn norm(self) -> RefErr {
        RefErr::Gen(bx(match self {
            GenericDecodeError::BadChar(e) => e.norm(),
            GenericDecodeError::BadString(e) => e.norm(),
            #[cfg(feature = "oa")]
            GenericDecodeError::NullString(e) => e.norm(),
            GenericDecodeError::NullInteger(e) => e.norm(),
            GenericDecodeError::SmallBuffer(e) => e.norm(),
            GenericDecodeError::UnassignedDiscriminant { value } => RefErr::GenDisc(value),
            #[cfg(feature = "os")]
            GenericDecodeError::NarrowSystemTime(e) => e.norm(),
            _ => RefErr::Refuse,
        }))
    }
}

/// What an error says about itself: normalised, converted into the generic
/// error, and all messages along the chain of sources of both.
pub struct Why { pub spec: RefErr, pub gen: RefErr, pub chain: Vec<Node>, pub gen_chain: Vec<Node> }
/// A member of a chain: its message, and its content if it is a leaf.
pub struct Node { pub msg: String, pub leaf: Option<RefErr> }
pub fn node(e: &(dyn std::error::Error + 'static)) -> Node {
    macro_rules! leaf { ($($t:ty: |$x:ident| $r:expr),* $(,)?) => { $( if let Some($x) = e.downcast_ref::<$t>() { return Node { msg: e.to_string(), leaf: Some($r) } } )* } }
    leaf!(
        UsizeEncodeError: |x| RefErr::Usize(x.0 as u128), IsizeEncodeError: |x| RefErr::Isize(x.0 as i128), CharDecodeError: |x| RefErr::Char(x.code_point),
        Utf8Error: |x| RefErr::Utf8(x.value, x.index), Utf16Error: |x| RefErr::Utf16(x.value, x.index), NonZeroDecodeError: |_x| RefErr::Zero,
        LengthError: |x| RefErr::Len { cap: x.capacity, len: x.len }, std::cell::BorrowError: |_x| RefErr::Borrow,
    );
    #[cfg(feature = "oa")]
    leaf!(CStringDecodeError: |x| RefErr::Nul(x.index));
    #[cfg(feature = "os")]
    leaf!(SystemTimeDecodeError: |x| RefErr::Time(x.timestamp));
    Node { msg: e.to_string(), leaf: None }
}
pub fn chain(e: &(dyn std::error::Error + 'static)) -> Vec<Node> {
    let mut v = vec![node(e)];
    let mut e = e;
    while let Some(s) = e.source() { v.push(node(s)); e = s; if v.len() > 100 { break } }
    v
}

#[cfg(not(feature = "why"))]
mod bounds {
    use super::*;
    pub trait EncErr: Norm {}
    impl<E: Norm> EncErr for E {}
    pub trait DecErr: Norm {}
    impl<E: Norm> DecErr for E {}
    pub fn why_enc<E: EncErr>(_: E, _: E) -> Option<Why> { None }
    pub fn why_dec<E: DecErr>(_: E, _: E) -> Option<Why> { None }
}
#[cfg(feature = "why")]
mod bounds {
    use super::*;
    use std::error::Error;
    pub trait EncErr: Norm + Error + Into<GenericEncodeError> + 'static {}
    impl<E: Norm + Error + Into<GenericEncodeError> + 'static> EncErr for E {}
    pub trait DecErr: Norm + Error + Into<GenericDecodeError> + 'static {}
    impl<E: Norm + Error + Into<GenericDecodeError> + 'static> DecErr for E {}
    // The conversion takes the error, so the caller makes it twice.
    pub fn why_enc<E: EncErr>(a: E, b: E) -> Option<Why> {
        let chain_ = chain(&a);
        let g: GenericEncodeError = b.into();
        Some(Why { spec: a.norm(), chain: chain_, gen_chain: chain(&g), gen: g.norm() })
    }
    pub fn why_dec<E: DecErr>(a: E, b: E) -> Option<Why> {
        let chain_ = chain(&a);
        let g: GenericDecodeError = b.into();
        Some(Why { spec: a.norm(), chain: chain_, gen_chain: chain(&g), gen: g.norm() })
    }
}
pub use bounds::*;
