//! `std::sync` with scheduling points.

use crate::sched::{point, wait};
use ::std::cell::{Cell, UnsafeCell};
use ::std::fmt::{self, Debug};
use ::std::ops::{Deref, DerefMut};
use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub use ::std::sync::*;
use ::std::sync as real;

fn free<G>(r: TryLockResult<G>) -> bool { !matches!(r, Err(TryLockError::WouldBlock)) }

macro_rules! guard {
    ($name:ident, $lock:ident $(, $mut_:tt)?) => {
        #[must_use]
        pub struct $name<'a, T: ?Sized + 'a>(Option<real::$name<'a, T>>);
        impl<'a, T: ?Sized> $name<'a, T> {
            fn new(r: LockResult<real::$name<'a, T>>) -> LockResult<Self> {
                match r {
                    Ok(g) => Ok($name(Some(g))),
                    Err(e) => Err(PoisonError::new($name(Some(e.into_inner())))),
                }
            }
            fn try_new(r: TryLockResult<real::$name<'a, T>>) -> TryLockResult<Self> {
                match r {
                    Ok(g) => Ok($name(Some(g))),
                    Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                    Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new($name(Some(e.into_inner()))))),
                }
            }
        }
        impl<T: ?Sized> Deref for $name<'_, T> {
            type Target = T;
            fn deref(&self) -> &T { self.0.as_ref().unwrap() }
        }
        $( guard!(@ $mut_ $name); )?
        impl<T: ?Sized + Debug> Debug for $name<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
        }
        impl<T: ?Sized + fmt::Display> fmt::Display for $name<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
        }
        impl<T: ?Sized> Drop for $name<'_, T> {
            fn drop(&mut self) {
                drop(self.0.take());
                point();
            }
        }
    };
    (@ mut $name:ident) => {
        impl<T: ?Sized> DerefMut for $name<'_, T> {
            fn deref_mut(&mut self) -> &mut T { self.0.as_mut().unwrap() }
        }
    };
}
guard!(MutexGuard, Mutex, mut);
guard!(RwLockReadGuard, RwLock);
guard!(RwLockWriteGuard, RwLock, mut);

macro_rules! common {
    ($name:ident) => {
        impl<T> $name<T> {
            pub const fn new(t: T) -> Self { $name(real::$name::new(t)) }
            pub fn into_inner(self) -> LockResult<T> { self.0.into_inner() }
        }
        impl<T: ?Sized> $name<T> {
            pub fn is_poisoned(&self) -> bool { point(); self.0.is_poisoned() }
            pub fn clear_poison(&self) { point(); self.0.clear_poison() }
            pub fn get_mut(&mut self) -> LockResult<&mut T> { self.0.get_mut() }
        }
        impl<T> From<T> for $name<T> { fn from(t: T) -> Self { Self::new(t) } }
        impl<T: Default> Default for $name<T> { fn default() -> Self { Self::new(T::default()) } }
        impl<T: ?Sized + Debug> Debug for $name<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) }
        }
    };
}

pub struct Mutex<T: ?Sized>(real::Mutex<T>);
common!(Mutex);
impl<T: ?Sized> Mutex<T> {
    /// Whether the lock is held, without a scheduling point.
    pub fn held(&self) -> bool { !free(self.0.try_lock()) }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        wait(&|| free(self.0.try_lock()));
        MutexGuard::new(self.0.lock())
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        point();
        MutexGuard::try_new(self.0.try_lock())
    }
}

pub struct RwLock<T: ?Sized>(real::RwLock<T>);
common!(RwLock);
impl<T: ?Sized> RwLock<T> {
    /// Whether the lock is held, without a scheduling point.
    pub fn held(&self) -> bool { !free(self.0.try_write()) }
    pub fn held_exclusively(&self) -> bool { !free(self.0.try_read()) }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        wait(&|| free(self.0.try_read()));
        RwLockReadGuard::new(self.0.read())
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        wait(&|| free(self.0.try_write()));
        RwLockWriteGuard::new(self.0.write())
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        point();
        RwLockReadGuard::try_new(self.0.try_read())
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        point();
        RwLockWriteGuard::try_new(self.0.try_write())
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Lazy { Fresh, Running, Done, Poisoned }

/// Like the real one, but a task that has to wait for the initialisation by
/// another one does so under the scheduler.
pub struct LazyLock<T, F = fn() -> T> {
    state: Cell<Lazy>,
    init: UnsafeCell<Option<F>>,
    value: UnsafeCell<Option<T>>,
}
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self { LazyLock { state: Cell::new(Lazy::Fresh), init: UnsafeCell::new(Some(f)), value: UnsafeCell::new(None) } }
    pub fn force(this: &Self) -> &T {
        wait(&|| this.state.get() != Lazy::Running);
        match this.state.get() {
            Lazy::Done => {}
            Lazy::Poisoned => panic!("LazyLock instance has previously been poisoned"),
            Lazy::Running => unreachable!(),
            Lazy::Fresh => {
                this.state.set(Lazy::Running);
                let f = unsafe { (*this.init.get()).take().unwrap() };
                match catch_unwind(AssertUnwindSafe(f)) {
                    Ok(v) => {
                        unsafe { *this.value.get() = Some(v) };
                        this.state.set(Lazy::Done);
                        point();
                    }
                    Err(p) => {
                        this.state.set(Lazy::Poisoned);
                        resume_unwind(p)
                    }
                }
            }
        }
        unsafe { (*this.value.get()).as_ref().unwrap() }
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T { Self::force(self) }
}
impl<T: Default> Default for LazyLock<T> { fn default() -> Self { Self::new(T::default) } }
impl<T: Debug, F> Debug for LazyLock<T, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("LazyLock(..)") }
}

/// For the atomics of `core`.
pub fn touch() { point() }
