//! Stands in for `core` in the same way as `vstd` does for `std`: accesses to
//! atomics are scheduling points.

pub use ::core::*;

pub mod sync {
    pub use ::core::sync::*;

    pub mod atomic {
        pub use ::core::sync::atomic::*;
        use ::core::sync::atomic as real;
        use vstd::sched::point;

        macro_rules! base {
            ($name:ident, $t:ty) => {
                /// Everything that is not listed here is the real type's.
                #[repr(transparent)]
                #[derive(Default, Debug)]
                pub struct $name(pub real::$name);
                impl ::core::ops::Deref for $name {
                    type Target = real::$name;
                    fn deref(&self) -> &real::$name { point(); &self.0 }
                }
                impl From<$t> for $name { fn from(v: $t) -> Self { Self::new(v) } }
                impl $name {
                    pub const fn new(v: $t) -> Self { $name(real::$name::new(v)) }
                    pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                    pub const fn into_inner(self) -> $t { self.0.into_inner() }
                    pub fn load(&self, o: Ordering) -> $t { point(); self.0.load(o) }
                    pub fn store(&self, v: $t, o: Ordering) { point(); self.0.store(v, o) }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t { point(); self.0.swap(v, o) }
                }
            };
        }
        base!(AtomicBool, bool);
        base!(AtomicI8, i8);
        base!(AtomicI16, i16);
        base!(AtomicI32, i32);
        base!(AtomicI64, i64);
        base!(AtomicIsize, isize);
        base!(AtomicU8, u8);
        base!(AtomicU16, u16);
        base!(AtomicU32, u32);
        base!(AtomicU64, u64);
        base!(AtomicUsize, usize);
    }
}
