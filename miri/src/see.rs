//! Looking at all of a value, so that whatever is uninitialised, dangling or
//! invalid in it is read.

use crate::elem::*;
use oct::error::*;
use oct::{SizedIter, SizedSlice, SizedStr, Slot};
use std::fmt::{Debug, Write};
use std::hint::black_box;

/// By its `Debug`, which is costly here.
pub fn show(v: &(impl Debug + ?Sized)) {
    struct Sink(usize);
    impl Write for Sink {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0 += s.len();
            Ok(())
        }
    }
    let mut s = Sink(0);
    let _ = write!(s, "{v:?}");
    black_box(s.0);
}

pub fn see(v: &(impl See + ?Sized)) {
    v.see()
}

pub trait See {
    fn see(&self);
}

macro_rules! plain {
    ($($t:ty)*) => {$(
        impl See for $t {
            fn see(&self) {
                black_box(*self);
            }
        }
    )*};
}
plain! { () u8 u16 u32 u64 usize bool char std::cmp::Ordering Zst }

impl<T: See + ?Sized> See for &T {
    fn see(&self) {
        (**self).see()
    }
}
impl<T: See + ?Sized> See for &mut T {
    fn see(&self) {
        (**self).see()
    }
}
impl<T: See + ?Sized> See for Box<T> {
    fn see(&self) {
        (**self).see()
    }
}
impl<T: See> See for [T] {
    fn see(&self) {
        let mut i = 0;
        while i < self.len() {
            self[i].see();
            i += 1;
        }
    }
}
impl<T: See, const N: usize> See for [T; N] {
    fn see(&self) {
        self[..].see()
    }
}
impl<T: See> See for Vec<T> {
    fn see(&self) {
        self[..].see()
    }
}
impl See for str {
    fn see(&self) {
        // Everything that relies on valid text goes through this.
        assert!(std::str::from_utf8(black_box(self.as_bytes())).is_ok());
    }
}
impl See for String {
    fn see(&self) {
        self[..].see()
    }
}
impl See for std::ffi::OsStr {
    fn see(&self) {
        self.as_encoded_bytes().see()
    }
}
impl See for std::path::Path {
    fn see(&self) {
        self.as_os_str().see()
    }
}
impl<T: See, const N: usize> See for SizedSlice<T, N> {
    fn see(&self) {
        self.as_slice().see()
    }
}
impl<T: See, const N: usize> See for SizedIter<T, N> {
    fn see(&self) {
        self.as_slice().see()
    }
}
impl<const N: usize> See for SizedStr<N> {
    fn see(&self) {
        self.as_str().see()
    }
}
impl<T> See for Slot<T> {
    fn see(&self) {
        self.as_slice().see()
    }
}
impl See for Heap {
    fn see(&self) {
        self.0.see()
    }
}
impl See for Wide {
    fn see(&self) {
        black_box(*self);
    }
}
impl<T: See> See for Option<T> {
    fn see(&self) {
        if let Some(v) = self {
            v.see()
        }
    }
}
impl<T: See, E> See for Result<T, E> {
    fn see(&self) {
        if let Ok(v) = self {
            v.see()
        }
    }
}
impl See for InputError {
    fn see(&self) {
        (self.capacity, self.position, self.count).see()
    }
}
macro_rules! tuples {
    ($(($($i:tt $t:ident),*))*) => {$(
        impl<$($t: See),*> See for ($($t,)*) {
            fn see(&self) {
                $(self.$i.see();)*
            }
        }
    )*};
}
tuples! { (0 A) (0 A, 1 B) (0 A, 1 B, 2 C) (0 A, 1 B, 2 C, 3 D) (0 A, 1 B, 2 C, 3 D, 4 E) (0 A, 1 B, 2 C, 3 D, 4 E, 5 F) (0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G) (0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H) (0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I) }
impl See for std::ops::Range<usize> {
    fn see(&self) {
        (self.start, self.end).see()
    }
}
