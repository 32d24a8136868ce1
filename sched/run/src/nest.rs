//! Values behind two or three wrappers at once.

use crate::cx::{section, Cx, Fp, Section};
use crate::*;
use std::cell::LazyCell;

/// What a wrapped probe is made of, has to encode as, and whether it is free.
pub trait Nest: Encode + Sized + 'static {
    fn mk() -> Self;
    fn bytes() -> Vec<u8>;
    fn free(&self) -> bool;
    fn name() -> String;
    /// How many steps its encoding takes.
    fn steps() -> u8;
}
impl Nest for Probe {
    fn mk() -> Self { Probe::new(5, 6) }
    fn bytes() -> Vec<u8> { vec![5, 6] }
    fn free(&self) -> bool { self.get() == [5, 6] }
    fn name() -> String { "Probe".into() }
    fn steps() -> u8 { 3 }
}
macro_rules! nest {
    ($name:expr, $t:ty $(where $b:path)?, $mk:expr, |$s:ident| $free:expr) => { nest!($name, $t $(where $b)?, $mk, |$s| $free, 1, vec![]); };
    ($name:expr, $t:ty $(where $b:path)?, $mk:expr, |$s:ident| $free:expr, $n:expr, $pre:expr) => {
        impl<T: Nest $(+ $b)?> Nest for $t {
            fn mk() -> Self { $mk }
            fn bytes() -> Vec<u8> { let mut v: Vec<u8> = $pre; for _ in 0..$n { v.extend(T::bytes()) } v }
            fn free(&self) -> bool { let $s = self; $free }
            fn name() -> String { format!(concat!($name, "<{}>"), T::name()) }
            fn steps() -> u8 { T::steps() * $n }
        }
    };
}
nest!("Mutex", Mutex<T>, Mutex::new(T::mk()), |s| match s.try_lock() { Ok(g) => g.free(), Err(std::sync::TryLockError::Poisoned(e)) => e.into_inner().free(), Err(_) => false });
nest!("RwLock", RwLock<T>, RwLock::new(T::mk()), |s| match s.try_write() { Ok(g) => g.free(), Err(std::sync::TryLockError::Poisoned(e)) => e.into_inner().free(), Err(_) => false });
nest!("RefCell", RefCell<T>, RefCell::new(T::mk()), |s| s.try_borrow_mut().is_ok_and(|g| g.free()));
nest!("LazyCell", LazyCell<T>, LazyCell::new(T::mk), |s| T::free(s));
nest!("LazyLock", LazyLock<T>, LazyLock::new(T::mk), |s| T::free(s));
nest!("Box", Box<T>, Box::new(T::mk()), |s| T::free(s));
nest!("Rc", Rc<T>, Rc::new(T::mk()), |s| Rc::strong_count(s) == 1 && Rc::weak_count(s) == 0 && T::free(s));
nest!("Arc", Arc<T>, Arc::new(T::mk()), |s| Arc::strong_count(s) == 1 && Arc::weak_count(s) == 0 && T::free(s));
nest!("&", &'static T, Box::leak(Box::new(T::mk())), |s| T::free(s));
nest!("&mut", &'static mut T, Box::leak(Box::new(T::mk())), |s| T::free(s));
nest!("Option", Option<T>, Some(T::mk()), |s| s.as_ref().is_some_and(T::free), 1, vec![1]);
nest!("Vec", Vec<T>, vec![T::mk(), T::mk()], |s| s.len() == 2 && s.iter().all(T::free), 2, vec![2, 0]);
nest!("[_; 2]", [T; 2], [T::mk(), T::mk()], |s| s.iter().all(T::free), 2, vec![]);

/// Encodes with a failure at each step in turn, each followed by an encoding
/// that works: which it only does if everything has been released.
fn check<T: Nest>(cx: &mut Cx) {
    let n = T::steps();
    let all: Vec<Fault> = [Fault::No].into_iter().chain((0..n).flat_map(|i| [Fault::Err(i), Fault::Panic(i)])).collect();
    let pairs: Vec<Vec<Fault>> = all.iter().flat_map(|a| all.iter().map(move |b| vec![*a, *b])).collect();
    for fs in pairs {
        let fp = Fp::of(format!("{}{fs:?}", T::name()).as_bytes());
        cx.transitions += 3;
        cx.traces += 1;
        cx.case(fp, || format!("{} {fs:?}", T::name()), |_| {
            let v = T::mk();
            for f in fs.iter().chain([&Fault::No]) {
                plan(*f);
                let mut buf = [0xAA; 64];
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut o = Output::new(&mut buf);
                    v.encode(&mut o).map(|()| o.position()).map_err(|_| seen())
                }));
                plan(Fault::No);
                let ok = match (*f, &r) {
                    (Fault::No, Ok(Ok(n))) => buf[..*n] == T::bytes()[..],
                    (Fault::Err(i), Ok(Err(j))) => *j == i + 1,
                    (Fault::Panic(i), Err(p)) => p.downcast_ref::<Boom>().is_some_and(|b| b.0 == i),
                    _ => false,
                };
                ensure!(ok, format!("{}: the encoding does not end as the value's", T::name()), "{f:?} gave {:?}, {:?}", r.map_err(|_| "a panic"), &buf[..16]);
                ensure!(v.free(), format!("{}: not released or changed", T::name()), "after {f:?}");
            }
            Ok("held")
        });
    }
}

macro_rules! each {
    ($cx:ident, $inner:ty; $($o:ident),*) => { $( check::<$o<$inner>>($cx); )* check::<&'static $inner>($cx); check::<&'static mut $inner>($cx); check::<[$inner; 2]>($cx); };
}
macro_rules! two {
    ($cx:ident, $core:ty; $($o:ident),*) => { $( two!(@ $cx, $o<$core>); )* two!(@ $cx, &'static $core); two!(@ $cx, [$core; 2]); };
    (@ $cx:ident, $inner:ty) => { each!($cx, $inner; Mutex, RwLock, RefCell, LazyCell, LazyLock, Box, Rc, Arc, Option, Vec) };
}

/// Unsized values.
fn slices(cx: &mut Cx) {
    for f in [Fault::No].into_iter().chain((0..6).flat_map(|i| [Fault::Err(i), Fault::Panic(i)])) {
        macro_rules! one {
            ($n:expr, $v:expr, |$s:ident| $free:expr) => {
                cx.case(Fp::of(format!("{}{f:?}", $n).as_bytes()), || format!("{} {f:?}", $n), |_| {
                    let $s = $v;
                    for f in [f, Fault::No] {
                        plan(f);
                        let mut buf = [0xAA; 16];
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            let mut o = Output::new(&mut buf);
                            (*$s).encode(&mut o).map(|()| o.position()).map_err(|_| seen())
                        }));
                        plan(Fault::No);
                        let ok = match (f, &r) {
                            (Fault::No, Ok(Ok(n))) => buf[..*n] == [2, 0, 5, 6, 7, 8],
                            (Fault::Err(i), Ok(Err(j))) => *j == i + 1,
                            (Fault::Panic(i), Err(p)) => p.downcast_ref::<Boom>().is_some_and(|b| b.0 == i),
                            _ => false,
                        };
                        ensure!(ok, format!("{}: the encoding does not end as the value's", $n), "{f:?} gave {:?}", r.map_err(|_| "a panic"));
                        ensure!($free, format!("{}: not released or changed", $n), "after {f:?}");
                    }
                    Ok("held")
                });
            };
        }
        let ps = || [Probe::new(5, 6), Probe::new(7, 8)];
        one!("Mutex<[_]>", Box::new(Mutex::new(ps())) as Box<Mutex<[Probe]>>, |s| !matches!(s.try_lock(), Err(std::sync::TryLockError::WouldBlock)));
        one!("RwLock<[_]>", Box::new(RwLock::new(ps())) as Box<RwLock<[Probe]>>, |s| !matches!(s.try_write(), Err(std::sync::TryLockError::WouldBlock)));
        one!("RefCell<[_]>", Box::new(RefCell::new(ps())) as Box<RefCell<[Probe]>>, |s| s.try_borrow_mut().is_ok());
        one!("Arc<[_]>", Arc::new(ps()) as Arc<[Probe]>, |s| Arc::strong_count(&s) == 1);
        one!("Rc<[_]>", Rc::new(ps()) as Rc<[Probe]>, |s| Rc::strong_count(&s) == 1);
        one!("Arc<Mutex<[_]>>", Arc::new(Mutex::new(ps())) as Arc<Mutex<[Probe]>>, |s| Arc::strong_count(&s) == 1 && !matches!(s.try_lock(), Err(std::sync::TryLockError::WouldBlock)));
    }
}

pub fn sections(out: &mut Vec<Section>) {
    out.push(section("wrapped", |cx| {
        check::<Probe>(cx);
        each!(cx, Probe; Mutex, RwLock, RefCell, LazyCell, LazyLock, Box, Rc, Arc, Option, Vec);
        slices(cx);
    }));
    out.push(section("wrapped twice", |cx| { two!(cx, Probe; Mutex, RwLock, RefCell, LazyCell, LazyLock, Box, Rc, Arc, Option, Vec); }));
}
