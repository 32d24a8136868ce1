//! A cooperative scheduler: tasks are coroutines on one thread that give up
//! control at each scheduling point, and wait for conditions instead of
//! blocking.

use ::std::cell::{Cell, RefCell};
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};

type Co = Coroutine<(), (), (), DefaultStack>;
type Pred = *const dyn Fn() -> bool;

struct Task {
    co: Option<Co>,
    wait: Option<Pred>,
    hist: u64,
    steps: u64,
}

thread_local! {
    static CUR: Cell<Option<*const Yielder<(), ()>>> = const { Cell::new(None) };
    static WAIT: Cell<Option<Pred>> = const { Cell::new(None) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
    static CLOCK: Cell<u64> = const { Cell::new(0) };
    static WHO: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// The number of steps that the running schedule has taken.
pub fn clock() -> u64 { CLOCK.with(Cell::get) }
/// The running task.
pub fn who() -> usize { WHO.with(Cell::get) }

/// Lets any other task run.
pub fn point() {
    if ::std::thread::panicking() { return }
    if let Some(y) = CUR.with(Cell::get) {
        WAIT.with(|w| w.set(None));
        suspend(y);
    }
}

/// Waits until `pred` holds; any other task may run before that in any case.
pub fn wait(pred: &dyn Fn() -> bool) {
    match CUR.with(Cell::get) {
        Some(y) if !::std::thread::panicking() => {
            // The closure outlives the wait, for the task's stack is kept.
            let p: Pred = unsafe { ::std::mem::transmute::<*const (dyn Fn() -> bool + '_), Pred>(pred) };
            WAIT.with(|w| w.set(Some(p)));
            suspend(y);
            debug_assert!(pred());
        }
        _ => assert!(pred(), "deadlock: waits for something that nobody else can do"),
    }
}

fn suspend(y: *const Yielder<(), ()>) {
    unsafe { (*y).suspend(()) };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End { Done, Deadlock, TooLong }

fn mix(a: u64, b: u64) -> u64 {
    let mut h = (a ^ b.wrapping_mul(0x9E3779B97F4A7C15)).wrapping_mul(0xff51afd7ed558ccd);
    h ^= h >> 32;
    h.wrapping_mul(0xc4ceb9fe1a85ec53) ^ (h >> 29)
}

/// Runs the tasks to their ends. `choose` picks one of the tasks that can go
/// on, given a fingerprint of the state; `snap` is that of the shared state.
/// A task's own state is a function of its steps and of the shared states
/// that it has seen at them, whence the fingerprint.
pub fn run(tasks: Vec<Box<dyn FnOnce()>>, snap: &dyn Fn() -> u64, choose: &mut dyn FnMut(u64, &[usize]) -> usize) -> (End, u64) {
    assert!(CUR.with(Cell::get).is_none(), "nested run");
    CLOCK.with(|c| c.set(0));
    let mut ts: Vec<Task> = tasks.into_iter().map(|f| {
        let stack = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(256 << 10).unwrap());
        let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
            CUR.with(|c| c.set(Some(y)));
            f();
        });
        Task { co: Some(co), wait: None, hist: 0, steps: 0 }
    }).collect();
    let mut yielders: Vec<Option<*const Yielder<(), ()>>> = vec![None; ts.len()];
    let mut steps = 0;
    let end = loop {
        if ts.iter().all(|t| t.co.is_none()) { break End::Done }
        let ready: Vec<usize> = (0..ts.len()).filter(|i| ts[*i].co.is_some() && ts[*i].wait.is_none_or(|p| unsafe { (*p)() })).collect();
        if ready.is_empty() { break End::Deadlock }
        if steps > 10_000 { break End::TooLong }
        let s = snap();
        let i = if ready.len() == 1 { ready[0] } else {
            let mut fp = s;
            for t in &ts { fp = mix(mix(fp, t.hist), t.steps * 2 + t.co.is_none() as u64) }
            ready[choose(fp, &ready)]
        };
        steps += 1;
        CLOCK.with(|c| c.set(steps));
        WHO.with(|c| c.set(i));
        let t = &mut ts[i];
        t.hist = mix(t.hist, s);
        t.steps += 1;
        t.wait = None;
        CUR.with(|c| c.set(yielders[i]));
        let r = t.co.as_mut().unwrap().resume(());
        yielders[i] = CUR.with(|c| c.replace(None));
        WHO.with(|c| c.set(usize::MAX));
        match r {
            CoroutineResult::Yield(()) => t.wait = WAIT.with(|w| w.take()),
            CoroutineResult::Return(()) => {
                let st = t.co.take().unwrap().into_stack();
                STACKS.with(|s| s.borrow_mut().push(st));
            }
        }
    };
    // What cannot go on is left as it is.
    for t in ts {
        if let Some(mut co) = t.co { unsafe { co.force_reset() } }
    }
    (end, steps)
}
