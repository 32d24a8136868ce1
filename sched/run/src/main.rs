//! C18: all interleavings of encoders, writers and readers of shared values.
//!
//! With the feature `shim`, the library's sources are built against locks and
//! atomics that are scheduling points themselves; without it they are built
//! against the real ones, and tasks wait for a lock to be free before they
//! use it, so that the scheduling points are those of the inner value only.

#[path = "../../../harness/src/chooser.rs"]
mod chooser;
#[path = "../../../harness/src/cx.rs"]
#[allow(dead_code)]
mod cx;

mod nest;
mod seq;

use chooser::Chooser;
use cx::{guard, section, Bad, CaseResult, Cx, Fp, FpSet, Section};
use oct::encode::{Encode, Output};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;
use vstd::sched::{self, point, wait, who, End};

#[cfg(not(feature = "shim"))]
pub use std::sync::{LazyLock, Mutex, RwLock};
#[cfg(feature = "shim")]
pub use vstd::sync::{LazyLock, Mutex, RwLock};
pub const SHIM: bool = cfg!(feature = "shim");

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault { No, Err(u8), Panic(u8) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct PErr(pub u8);
impl std::fmt::Display for PErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "planned error {}", self.0) }
}
impl std::error::Error for PErr {}

pub struct Boom(pub u8);

thread_local! {
    /// What the encoding of each task is to do.
    static FAULT: RefCell<[Fault; 8]> = const { RefCell::new([Fault::No; 8]) };
    /// How much of the plan the task has gone through.
    static SEEN: RefCell<[u8; 8]> = const { RefCell::new([0; 8]) };
    /// Whether the value is held, if that has to be so.
    static HELD: Cell<Option<fn() -> bool>> = const { Cell::new(None) };
    static LOOSE: Cell<bool> = const { Cell::new(false) };
}
fn task() -> usize { who().min(7) }
pub fn plan(f: Fault) {
    FAULT.with_borrow_mut(|a| a[task()] = f);
    SEEN.with_borrow_mut(|a| a[task()] = 0);
}
pub fn seen() -> u8 { SEEN.with_borrow(|a| a[task()]) }

/// A value that takes three steps to encode and can fail in each.
pub struct Probe { pub parts: [Cell<u8>; 2] }
// There is only one thread.
unsafe impl Sync for Probe {}
unsafe impl Send for Probe {}
impl Probe {
    pub fn new(a: u8, b: u8) -> Self { Probe { parts: [Cell::new(a), Cell::new(b)] } }
    pub fn get(&self) -> [u8; 2] { [self.parts[0].get(), self.parts[1].get()] }
}
fn step() -> Result<(), PErr> {
    if let Some(h) = HELD.with(Cell::get) { if !h() { LOOSE.with(|l| l.set(true)) } }
    let i = SEEN.with_borrow_mut(|a| { let t = task(); a[t] += 1; a[t] - 1 });
    match FAULT.with_borrow(|a| a[task()]) {
        Fault::Err(n) if n == i => Err(PErr(i)),
        Fault::Panic(n) if n == i => std::panic::panic_any(Boom(i)),
        _ => Ok(()),
    }
}
impl Encode for Probe {
    type Error = PErr;
    fn encode(&self, output: &mut Output) -> Result<(), PErr> {
        step()?;
        output.write(&[self.parts[0].get()]).unwrap();
        point();
        step()?;
        output.write(&[self.parts[1].get()]).unwrap();
        point();
        step()
    }
}

/// How an attempt at an encoding ended.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How { Done([u8; 4], usize), Refused(u8), Died(u8), Other }

pub fn attempt(f: Fault, g: impl FnOnce(&mut Output) -> Result<(), PErr>) -> How {
    plan(f);
    let mut buf = [0xAA; 4];
    let mut n = 0;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut o = Output::new(&mut buf);
        let r = g(&mut o);
        n = o.position();
        r
    }));
    plan(Fault::No);
    match r {
        Ok(Ok(())) => How::Done(buf, n),
        Ok(Err(e)) => How::Refused(e.0),
        Err(p) => p.downcast_ref::<Boom>().map_or(How::Other, |b| How::Died(b.0)),
    }
}

/// One run through the tasks' interleavings.
pub struct Scene {
    pub tasks: Vec<Box<dyn FnOnce()>>,
    pub snap: Box<dyn Fn() -> u64>,
    pub finish: Box<dyn FnOnce() -> Result<(), Bad>>,
}

/// Explores all interleavings. States that have been reached before are not
/// branched from again if `merge`; such runs go on straight to their ends.
pub fn interleave(cx: &mut Cx, merge: bool, mut scene: impl FnMut() -> Scene) -> CaseResult {
    let mut seen = FpSet::default();
    let mut ch = Chooser::new();
    let mut err = None;
    loop {
        ch.restart();
        let mut free = false;
        let mut trail = Vec::new();
        let s = scene();
        let (end, steps) = sched::run(s.tasks, &*s.snap, &mut |fp, ready| {
            let fresh = ch.at_end();
            if !free && fresh && !seen.insert(fp) && merge { free = true }
            let k = if free { 0 } else { ch.choose(ready.len()) };
            trail.push(ready[k] as u8);
            k
        });
        Cx::beat();
        cx.transitions += steps;
        cx.traces += 1;
        let r = match end {
            End::Done => guard(s.finish).unwrap_or_else(|m| Err(Bad::new("panics afterwards", m))),
            End::Deadlock => Err(Bad::new("nobody can go on", "")),
            End::TooLong => Err(Bad::new("does not come to an end", "")),
        };
        if let (Err(b), None) = (r, &err) { err = Some(Bad::new(b.sig, format!("{} (schedule {trail:?})", b.detail))); break }
        if !ch.advance() { break }
    }
    cx.states += seen.len() as u64;
    match err {
        Some(b) => Err(b),
        None => Ok("held"),
    }
}

// ---- Locks ----

pub trait Lock: Encode<Error = PErr> + 'static {
    const NAME: &'static str;
    const READERS: bool;
    fn make(p: Probe) -> Self;
    fn write(&self, f: &mut dyn FnMut(&Probe));
    fn read(&self, f: &mut dyn FnMut(&Probe));
    fn enter_read(&self);
    fn is_held(&self) -> bool;
    fn poisoned(&self) -> bool;
}
fn is_free<G>(r: Result<G, std::sync::TryLockError<impl Sized>>) -> bool { !matches!(r, Err(std::sync::TryLockError::WouldBlock)) }
impl Lock for Mutex<Probe> {
    const NAME: &'static str = "Mutex";
    const READERS: bool = false;
    fn make(p: Probe) -> Self { Mutex::new(p) }
    fn write(&self, f: &mut dyn FnMut(&Probe)) { self.enter_read(); let g = self.lock().unwrap_or_else(|e| e.into_inner()); f(&g) }
    fn read(&self, f: &mut dyn FnMut(&Probe)) { self.write(f) }
    fn enter_read(&self) { if !SHIM { wait(&|| is_free(self.try_lock())) } }
    fn is_held(&self) -> bool {
        #[cfg(feature = "shim")]
        return self.held();
        #[cfg(not(feature = "shim"))]
        !is_free(self.try_lock())
    }
    fn poisoned(&self) -> bool { self.is_poisoned() }
}
impl Lock for RwLock<Probe> {
    const NAME: &'static str = "RwLock";
    const READERS: bool = true;
    fn make(p: Probe) -> Self { RwLock::new(p) }
    fn write(&self, f: &mut dyn FnMut(&Probe)) {
        if !SHIM { wait(&|| is_free(self.try_write())) }
        let g = RwLock::write(self).unwrap_or_else(|e| e.into_inner());
        f(&g)
    }
    fn read(&self, f: &mut dyn FnMut(&Probe)) { self.enter_read(); let g = RwLock::read(self).unwrap_or_else(|e| e.into_inner()); f(&g) }
    fn enter_read(&self) { if !SHIM { wait(&|| is_free(self.try_read())) } }
    fn is_held(&self) -> bool {
        #[cfg(feature = "shim")]
        return self.held();
        #[cfg(not(feature = "shim"))]
        !is_free(self.try_write())
    }
    fn poisoned(&self) -> bool { self.is_poisoned() }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    /// Encode.
    E(Fault),
    /// Encode through a counted reference.
    A,
    /// Change the value, and possibly panic after so many parts.
    W(Option<u8>),
    /// Hold it exclusively.
    H,
    /// Hold it shared (where there is such a thing).
    R,
    /// Encode it while holding it shared.
    X,
    /// Hold it shared until somebody has encoded it.
    U,
}

struct World<L> {
    lock: Arc<L>,
    events: Cell<u64>,
    /// States of the value, and when each became visible.
    commits: RefCell<Vec<(u64, [u8; 2])>>,
    encoded: Cell<u32>,
    poison: Cell<bool>,
    bad: RefCell<Option<Bad>>,
}
impl<L: Lock> World<L> {
    fn tick(&self) -> u64 { self.events.set(self.events.get() + 1); self.events.get() }
    fn fail(&self, sig: &str, detail: String) {
        if self.bad.borrow().is_none() { *self.bad.borrow_mut() = Some(Bad::new(format!("{}: {sig}", L::NAME), detail)) }
    }

    fn encode(&self, f: Fault, counted: bool, inside: bool) {
        let start = self.tick();
        if !inside { self.lock.enter_read() }
        let how = attempt(f, |o| if counted { self.lock.encode(o) } else { L::encode(&self.lock, o) });
        let end = self.tick();
        self.encoded.set(self.encoded.get() + 1);
        if matches!(how, How::Died(_)) && !L::READERS { self.poison.set(true) }
        match (f, how) {
            (Fault::No, How::Done(b, n)) => {
                let c = self.commits.borrow();
                let ok = n == 2 && c.iter().enumerate().any(|(i, s)| s.1 == b[..2] && s.0 < end && c.get(i + 1).is_none_or(|t| t.0 > start));
                if !ok { self.fail("the encoding is not any state of the value", format!("{:?} of {n} octets, states {:?} between {start} and {end}", b, *c)) }
            }
            (Fault::Err(i), How::Refused(j)) if i == j => {}
            (Fault::Panic(i), How::Died(j)) if i == j => {}
            (f, h) => self.fail("the encoding does not end as the value's", format!("{f:?} gave {h:?}")),
        }
    }

    fn act(&self, op: Op, id: u8) {
        match op {
            Op::E(f) => self.encode(f, false, false),
            Op::A => self.encode(Fault::No, true, false),
            Op::W(p) => {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.lock.write(&mut |v| {
                    for i in 0..=2 {
                        if p == Some(i) {
                            self.poison.set(true);
                            self.commits.borrow_mut().push((self.tick(), v.get()));
                            std::panic::panic_any(Boom(99))
                        }
                        if i < 2 { v.parts[i as usize].set(id + 100 * i); point(); }
                    }
                    self.commits.borrow_mut().push((self.tick(), v.get()));
                })));
                assert!(r.is_ok() == p.is_none());
            }
            Op::H => self.lock.write(&mut |_| point()),
            Op::R => self.lock.read(&mut |v| {
                let a = v.get();
                point();
                if v.get() != a { self.fail("the value changes while it is held", format!("{a:?}, then {:?}", v.get())) }
            }),
            Op::X => self.lock.read(&mut |_| self.encode(Fault::No, false, true)),
            Op::U => self.lock.read(&mut |_| wait(&|| self.encoded.get() > 0)),
        }
    }
}

thread_local! { static LOCKS: RefCell<Option<Rc<dyn Fn() -> bool>>> = const { RefCell::new(None) }; }
fn lock_held() -> bool { LOCKS.with_borrow(|l| l.as_ref().is_none_or(|f| f())) }

fn scene<L: Lock>(progs: &[Vec<Op>]) -> Scene {
    let w = Rc::new(World {
        lock: Arc::new(L::make(Probe::new(7, 107))),
        events: Cell::new(0),
        commits: RefCell::new(vec![(0, [7, 107])]),
        encoded: Cell::new(0),
        poison: Cell::new(false),
        bad: RefCell::new(None),
    });
    // The value's own address, for it cannot be read while it is locked.
    let at: Rc<Cell<*const Probe>> = Rc::new(Cell::new(std::ptr::null()));
    w.lock.read(&mut |p| at.set(p));
    LOOSE.with(|l| l.set(false));
    HELD.with(|h| h.set(Some(lock_held)));
    let l = w.lock.clone();
    LOCKS.set(Some(Rc::new(move || l.is_held())));
    let tasks = progs.iter().enumerate().map(|(t, p)| {
        let (w, p) = (w.clone(), p.clone());
        Box::new(move || {
            for (i, op) in p.into_iter().enumerate() {
                if i > 0 { point() }
                w.act(op, 10 + 10 * t as u8 + i as u8)
            }
        }) as Box<dyn FnOnce()>
    }).collect();
    let (w1, w2) = (w.clone(), w);
    let ends = progs.iter().flatten().filter(|o| matches!(o, Op::E(_) | Op::A | Op::X)).count() as u32;
    Scene {
        tasks,
        snap: Box::new(move || {
            let mut f = Fp::new();
            f.bytes(unsafe { &(*at.get()).get() });
            f.num(w1.lock.is_held() as u64 * 2 + w1.poison.get() as u64).num(w1.encoded.get() as u64).num(w1.commits.borrow().len() as u64);
            for c in w1.commits.borrow().iter() { f.bytes(&c.1); }
            f.get()
        }),
        finish: Box::new(move || {
            LOCKS.set(None);
            HELD.with(|h| h.set(None));
            if let Some(b) = w2.bad.borrow_mut().take() { return Err(b) }
            let n = |s: &str| format!("{}: {s}", L::NAME);
            if LOOSE.with(Cell::get) { bad!(n("the value is encoded while it is not held"), "") }
            if w2.lock.is_held() { bad!(n("the lock is not released"), "") }
            if w2.encoded.get() != ends { bad!(n("an encoding is missing"), "{} of {ends}", w2.encoded.get()) }
            // Reading is itself done with what `poisoned` tells.
            let p = w2.lock.poisoned();
            if w2.poison.get() && !p { bad!(n("encoding clears poison"), "") }
            let mut v = [0; 2];
            w2.lock.read(&mut |p| v = p.get());
            let last = w2.commits.borrow().last().unwrap().1;
            if v != last { bad!(n("encoding changes the value"), "{v:?} instead of {last:?}") }
            if Arc::strong_count(&w2.lock) > 2 { bad!(n("a reference is kept"), "{}", Arc::strong_count(&w2.lock)) }
            Ok(())
        }),
    }
}

fn alphabet<L: Lock>(level: u8) -> Vec<Op> {
    let mut v = vec![Op::E(Fault::No), Op::W(None), Op::W(Some(1)), Op::E(Fault::Err(1)), Op::E(Fault::Panic(1))];
    if L::READERS { v.extend([Op::R, Op::X, Op::U]) } else { v.push(Op::H) }
    if level >= 1 {
        v.extend([Op::A, Op::W(Some(0)), Op::W(Some(2))]);
        v.extend([0, 2].map(|i| Op::E(Fault::Err(i))));
        v.extend([0, 2].map(|i| Op::E(Fault::Panic(i))));
        if L::READERS { v.push(Op::H) }
    }
    v
}
fn programs(ops: &[Op], max: usize) -> Vec<Vec<Op>> {
    let mut all = vec![];
    let mut last: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..max {
        last = last.iter().flat_map(|p| ops.iter().map(move |o| { let mut p = p.clone(); p.push(*o); p })).collect();
        all.extend(last.iter().cloned());
    }
    all
}

/// Tasks that only wait for others must not be all that is left.
fn sensible(progs: &[Vec<Op>]) -> bool {
    let mut enc = 0;
    for p in progs {
        // An encoding before the wait serves it, too.
        if p.iter().any(|o| matches!(o, Op::E(_) | Op::A | Op::X)) && !p.contains(&Op::U) { enc += 1 }
    }
    let waits = progs.iter().any(|p| p.contains(&Op::U));
    // Whoever encodes must not be kept from it by a writer that waits for a
    // waiting reader: let no thread do both.
    !waits || (enc > 0 && !progs.iter().any(|p| p.contains(&Op::U) && p.len() > 1) && progs.iter().any(|p| !p.contains(&Op::U) && {
        let first = p.iter().position(|o| matches!(o, Op::E(_) | Op::A | Op::X));
        let block = p.iter().position(|o| matches!(o, Op::W(_) | Op::H));
        first.is_some_and(|f| block.is_none_or(|b| f < b))
    }))
}

fn run_all<L: Lock>(cx: &mut Cx, threads: usize, progs: &[Vec<Op>], merge: bool, slice: (usize, usize)) {
    // Multisets of programs, for threads are alike.
    let mut at = vec![0usize; threads];
    let mut n = 0;
    loop {
        n += 1;
        if n % slice.1 == slice.0 {
            let ps: Vec<Vec<Op>> = at.iter().map(|i| progs[*i].clone()).collect();
            if sensible(&ps) {
                let fp = Fp::of(format!("{ps:?}{merge}").as_bytes());
                cx.case(fp, || format!("{} {ps:?}", L::NAME), |cx| interleave(cx, merge, || scene::<L>(&ps)));
            }
        }
        let mut k = threads;
        loop {
            if k == 0 { return }
            k -= 1;
            if at[k] + 1 < progs.len() {
                at[k] += 1;
                let v = at[k];
                at[k..].fill(v);
                break
            }
        }
    }
}

fn locks<L: Lock>(out: &mut Vec<Section>) {
    let n = L::NAME;
    out.push(section(format!("{n} alone"), |cx| {
        let (lv, d) = if cx.thorough { (1, 4) } else { (1, 3) };
        let ops: Vec<Op> = alphabet::<L>(lv).into_iter().filter(|o| *o != Op::U).collect();
        run_all::<L>(cx, 1, &programs(&ops, d), false, (0, 1))
    }));
    out.push(section(format!("{n} unmerged"), |cx| {
        let progs = programs(&alphabet::<L>(1), 1);
        run_all::<L>(cx, 2, &progs, false, (0, 1))
    }));
    for s in 0..16 {
        out.push(section(format!("{n} 2x2 {s}"), move |cx| {
            let lv = (cx.thorough || !L::READERS) as u8;
            run_all::<L>(cx, 2, &programs(&alphabet::<L>(lv), 2), true, (s, 16))
        }));
    }
    for s in 0..4 {
        out.push(section(format!("{n} 3x1 {s}"), move |cx| run_all::<L>(cx, 3, &programs(&alphabet::<L>(1), 1), true, (s, 4))));
    }
    // Deeper ones, where it is worth waiting for.
    for s in 0..16 {
        out.push(section(format!("{n} 2x3 {s}"), move |cx| {
            let ops = if L::READERS { vec![Op::E(Fault::No), Op::W(None), Op::X] } else { alphabet::<L>(0)[..5].to_vec() };
            if cx.thorough { run_all::<L>(cx, 2, &programs(&ops, 3), true, (s, 16)) }
        }));
        out.push(section(format!("{n} 3x2 {s}"), move |cx| {
            if cx.thorough { run_all::<L>(cx, 3, &programs(&alphabet::<L>(0)[..3], 2), true, (s, 16)) }
        }));
        out.push(section(format!("{n} 4x1 {s}"), move |cx| {
            if cx.thorough { run_all::<L>(cx, 4, &programs(&alphabet::<L>(0), 1), true, (s, 16)) }
        }));
    }
}

// ---- Lazy values ----

thread_local! {
    static INITS: Cell<u32> = const { Cell::new(0) };
    static INIT_DIES: Cell<bool> = const { Cell::new(false) };
}
pub fn init() -> Probe {
    INITS.with(|c| c.set(c.get() + 1));
    if SHIM { point() }
    if INIT_DIES.with(Cell::get) { std::panic::panic_any(Boom(50)) }
    if SHIM { point() }
    Probe::new(1, 2)
}
pub fn reset_init(dies: bool) {
    INITS.with(|c| c.set(0));
    INIT_DIES.with(|c| c.set(dies));
}
pub fn inits() -> u32 { INITS.with(Cell::get) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum LOp { E(Fault), F }

fn lazy_scene(progs: &[Vec<LOp>], dies: bool) -> Scene {
    reset_init(dies);
    let lz: Rc<LazyLock<Probe>> = Rc::new(LazyLock::new(init));
    let done = Rc::new(Cell::new(0u64));
    let bad: Rc<RefCell<Option<Bad>>> = Rc::default();
    let tasks = progs.iter().map(|p| {
        let (lz, p, bad, done) = (lz.clone(), p.clone(), bad.clone(), done.clone());
        Box::new(move || for (i, op) in p.into_iter().enumerate() {
            if i > 0 { point() }
            let how = match op {
                LOp::E(f) => attempt(f, |o| LazyLock::<Probe>::encode(&lz, o)),
                LOp::F => attempt(Fault::No, |o| { o.write(&LazyLock::force(&lz).get()).unwrap(); Ok(()) }),
            };
            let f = match op { LOp::E(f) => f, LOp::F => Fault::No };
            let ok = match (dies, f, how) {
                (true, _, How::Died(50) | How::Other) => true,
                (true, ..) => false,
                (_, Fault::No, How::Done(b, 2)) => b[..2] == [1, 2],
                (_, Fault::Err(i), How::Refused(j)) => i == j,
                (_, Fault::Panic(i), How::Died(j)) => i == j,
                _ => false,
            };
            done.set(done.get() + 1);
            if !ok && bad.borrow().is_none() { *bad.borrow_mut() = Some(Bad::new("LazyLock: the encoding does not end as the value's", format!("{op:?} gave {how:?}"))) }
        }) as Box<dyn FnOnce()>
    }).collect();
    let total = progs.iter().map(|p| p.len() as u64).sum::<u64>();
    let d2 = done.clone();
    Scene {
        tasks,
        snap: Box::new(move || inits() as u64 + 16 * done.get()),
        finish: Box::new(move || {
            if let Some(b) = bad.borrow_mut().take() { return Err(b) }
            ensure!(inits() == 1, "LazyLock: initialised more than once", "{} times", inits());
            ensure!(d2.get() == total, "LazyLock: an encoding is missing", "{} of {total}", d2.get());
            if !dies { ensure!(LazyLock::force(&lz).get() == [1, 2], "LazyLock: encoding changes the value", "{:?}", lz.get()) }
            Ok(())
        }),
    }
}

fn lazies(out: &mut Vec<Section>) {
    out.push(section("LazyLock", |cx| {
        let ops: Vec<LOp> = if cx.thorough {
            [Fault::No].into_iter().chain((0..3).flat_map(|i| [Fault::Err(i), Fault::Panic(i)])).map(LOp::E).chain([LOp::F]).collect()
        } else { vec![LOp::E(Fault::No), LOp::E(Fault::Err(1)), LOp::E(Fault::Panic(1)), LOp::F] };
        let one: Vec<Vec<LOp>> = ops.iter().map(|o| vec![*o]).collect();
        let two: Vec<Vec<LOp>> = ops.iter().flat_map(|a| ops.iter().map(move |b| vec![*a, *b])).collect();
        let both: Vec<Vec<LOp>> = one.iter().chain(&two).cloned().collect();
        let mut sets: Vec<(Vec<Vec<LOp>>, bool)> = vec![];
        for p in &both { sets.push((vec![p.clone()], false)) }
        for (i, p) in both.iter().enumerate() { for q in &both[i..] { sets.push((vec![p.clone(), q.clone()], true)) } }
        for (i, p) in one.iter().enumerate() { for q in &one[i..] { sets.push((vec![p.clone(), q.clone()], false)) } }
        for (i, p) in one.iter().enumerate() { for (j, q) in one.iter().enumerate().skip(i) { for r in &one[j..] { sets.push((vec![p.clone(), q.clone(), r.clone()], true)) } } }
        for (ps, merge) in sets {
            for dies in [false, true] {
                let fp = Fp::of(format!("{ps:?}{merge}{dies}").as_bytes());
                cx.case(fp, || format!("LazyLock {ps:?} init {}", if dies { "panics" } else { "works" }), |cx| interleave(cx, merge, || lazy_scene(&ps, dies)));
            }
        }
    }));
}

// ---- Atomics ----

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum AOp { E, Add, Set }

macro_rules! atomic {
    ($out:ident, $name:ident, $t:ty, $wide:ty, $add:expr, $start:expr) => {
        $out.push(section(concat!(stringify!($name)), |cx| {
            use std::sync::atomic::Ordering::SeqCst;
            #[cfg(not(feature = "shim"))]
            use std::sync::atomic::$name as At;
            #[cfg(feature = "shim")]
            use vcore::sync::atomic::$name as At;
            let ops = [AOp::E, AOp::Add, AOp::Set];
            let progs: Vec<Vec<AOp>> = ops.iter().map(|a| vec![*a]).chain(ops.iter().flat_map(|a| ops.iter().map(move |b| vec![*a, *b]))).collect();
            let mut sets: Vec<(Vec<Vec<AOp>>, bool)> = vec![];
            for (i, p) in progs.iter().enumerate() { for (j, q) in progs.iter().enumerate().skip(i) {
                sets.push((vec![p.clone(), q.clone()], false));
                let three = if cx.thorough { progs.len() } else { 3 };
                for r in progs.iter().take(three).skip(j) { sets.push((vec![p.clone(), q.clone(), r.clone()], true)) }
            } }
            for (ps, merge) in sets {
                let fp = Fp::of(format!("{ps:?}{merge}").as_bytes());
                cx.case(fp, || format!("{} {ps:?}", stringify!($name)), |cx| interleave(cx, merge, || {
                    let a: Rc<At> = Rc::new(At::new($start));
                    let bad: Rc<RefCell<Option<Bad>>> = Rc::default();
                    // Values that it has had, the last one being current.
                    let had: Rc<RefCell<Vec<$t>>> = Rc::new(RefCell::new(vec![$start]));
                    let tasks = ps.iter().enumerate().map(|(t, p)| {
                        let (a, p, bad, had) = (a.clone(), p.clone(), bad.clone(), had.clone());
                        Box::new(move || for (i, op) in p.into_iter().enumerate() {
                            point();
                            match op {
                                AOp::E => {
                                    let from = had.borrow().len() - 1;
                                    let mut buf = [0xAA; 16];
                                    let mut o = Output::new(&mut buf);
                                    At::encode(&a, &mut o).unwrap();
                                    let n = o.position();
                                    let ok = had.borrow()[from..].iter().any(|v| {
                                        let w = *v as $wide;
                                        n == size_of::<$wide>() && buf[..n] == w.to_le_bytes()
                                    });
                                    if !ok { *bad.borrow_mut() = Some(Bad::new(concat!(stringify!($name), ": the encoding is not any value of it"), format!("{:?}, had {:?} from {from}", &buf[..n], had.borrow()))) }
                                }
                                AOp::Add | AOp::Set => {
                                    let was = *had.borrow().last().unwrap();
                                    let add: fn($t) -> $t = $add;
                                    let set: $t = if t == 0 { $start } else { add(add(add(<$t>::from(i > 0) ))) };
                                    // One atomic step, for nothing comes between.
                                    let now = raw(&a).load(SeqCst);
                                    let new = if op == AOp::Add { add(now) } else { set };
                                    raw(&a).store(new, SeqCst);
                                    if now != was && bad.borrow().is_none() { *bad.borrow_mut() = Some(Bad::new(concat!(stringify!($name), ": encoding changes the value"), format!("{now:?} instead of {was:?}"))) }
                                    had.borrow_mut().push(new);
                                }
                            }
                        }) as Box<dyn FnOnce()>
                    }).collect();
                    #[cfg(feature = "shim")]
                    fn raw(a: &At) -> &std::sync::atomic::$name { &a.0 }
                    #[cfg(not(feature = "shim"))]
                    fn raw(a: &At) -> &std::sync::atomic::$name { a }
                    let (a2, h2) = (a.clone(), had.clone());
                    Scene {
                        tasks,
                        snap: Box::new(move || Fp::of(format!("{:?}{:?}", raw(&a2), h2.borrow()).as_bytes())),
                        finish: Box::new(move || {
                            if let Some(b) = bad.borrow_mut().take() { return Err(b) }
                            let (now, was) = (raw(&a).load(SeqCst), *had.borrow().last().unwrap());
                            ensure!(now == was, concat!(stringify!($name), ": encoding changes the value"), "{now:?} instead of {was:?}");
                            Ok(())
                        }),
                    }
                }));
            }
        }));
    };
}

fn atomics(out: &mut Vec<Section>) {
    atomic!(out, AtomicBool, bool, u8, |v| !v, true);
    atomic!(out, AtomicI8, i8, i8, |v| v.wrapping_add(0x11), 0x7f);
    atomic!(out, AtomicI16, i16, i16, |v| v.wrapping_add(0x1101), 0x7f80);
    atomic!(out, AtomicI32, i32, i32, |v| v.wrapping_add(0x1100_0001), 0x7f80_00ff);
    atomic!(out, AtomicI64, i64, i64, |v| v.wrapping_add(0x1100_0000_0000_0001), 0x7f80_00ff_1234_5678);
    atomic!(out, AtomicIsize, isize, i16, |v| (v + 0x1101) % 0x7000, 0x7ff);
    atomic!(out, AtomicU8, u8, u8, |v| v.wrapping_add(0x11), 0xf0);
    atomic!(out, AtomicU16, u16, u16, |v| v.wrapping_add(0x1101), 0xf080);
    atomic!(out, AtomicU32, u32, u32, |v| v.wrapping_add(0x1100_0001), 0xff80_00ff);
    atomic!(out, AtomicU64, u64, u64, |v| v.wrapping_add(0x1100_0000_0000_0001), 0xff80_00ff_1234_5678);
    atomic!(out, AtomicUsize, usize, u16, |v| (v + 0x1101) % 0xff00, 0x7ff);
}

fn main() {
    cx::run(|| {
        let mut v = vec![];
        locks::<Mutex<Probe>>(&mut v);
        locks::<RwLock<Probe>>(&mut v);
        lazies(&mut v);
        atomics(&mut v);
        seq::sections(&mut v);
        nest::sections(&mut v);
        v
    })
}
