//! Elements that account for their construction and destruction, and an
//! allocator that accounts for memory. Faults are injected by call number.

use oct::decode::{Decode, Input};
use oct::error::{CharDecodeError, GenericDecodeError};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::fmt::Debug;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind { Error, Panic }

#[derive(Default)]
pub struct Ledger {
    pub drops: Vec<u32>,
    /// What was used after it had been dropped, and the like.
    pub wrong: Vec<&'static str>,
    pub calls: usize,
    pub plan: Option<(usize, Kind)>,
    /// Elements without size are only counted.
    pub made: usize,
    pub unmade: usize,
}
thread_local! { static L: RefCell<Ledger> = RefCell::new(Ledger::default()) }

pub fn reset(plan: Option<(usize, Kind)>) {
    L.with(|l| *l.borrow_mut() = Ledger { drops: Vec::with_capacity(4096), wrong: Vec::with_capacity(64), calls: 0, plan, made: 0, unmade: 0 });
}
pub fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R { L.with(|l| f(&mut l.borrow_mut())) }
pub fn plan(p: Option<(usize, Kind)>) { with(|l| { l.calls = 0; l.plan = p }) }

/// A place at which foreign code may fail.
pub fn point() -> Result<(), Fail> {
    let hit = with(|l| { let h = l.plan.filter(|p| p.0 == l.calls).map(|p| p.1); l.calls += 1; h });
    match hit { Some(Kind::Error) => Err(Fail), Some(Kind::Panic) => panic!("injected"), None => Ok(()) }
}

#[derive(Debug, PartialEq)]
pub struct Fail;
impl std::fmt::Display for Fail { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "injected") } }
impl std::error::Error for Fail {}
impl From<Fail> for GenericDecodeError { fn from(_: Fail) -> Self { CharDecodeError { code_point: 0xd800 }.into() } }

pub trait Own: Decode<Error = Fail> + Clone + Debug + 'static {
    const SIZED: bool = true;
    fn fresh() -> Self;
    fn id(&self) -> usize;
}

fn register() -> usize { with(|l| { l.drops.push(0); l.made += 1; l.drops.len() - 1 }) }
fn gone(id: usize, ok: bool) {
    with(|l| {
        l.unmade += 1;
        if !ok { l.wrong.push("an element whose memory has changed is dropped"); return }
        match l.drops.get_mut(id) {
            Some(d) => { *d += 1; if *d > 1 { l.wrong.push("an element is dropped twice") } }
            None => l.wrong.push("something that never was is dropped"),
        }
    })
}
fn used(id: usize, ok: bool) -> usize {
    with(|l| if !ok || l.drops.get(id).is_none_or(|d| *d != 0) { l.wrong.push("an element is used after its end") });
    id
}

const MAGIC: usize = 0x5eed_0000_0000;
/// Owns memory.
#[derive(Debug)]
pub struct D { id: usize, heap: Box<usize>, key: u8 }
impl D { fn ok(&self) -> bool { *self.heap == self.id ^ MAGIC } }
impl Own for D {
    fn fresh() -> Self { let id = register(); D { id, heap: Box::new(id ^ MAGIC), key: id as u8 } }
    fn id(&self) -> usize { used(self.id, self.ok()) }
}
impl Drop for D { fn drop(&mut self) { let ok = self.ok(); gone(self.id, ok) } }
/// Needs a big alignment.
#[derive(Debug)]
#[repr(align(64))]
pub struct W { id: usize, check: usize, key: u8 }
impl W { fn ok(&self) -> bool { self.check == self.id ^ MAGIC && self as *const Self as usize % 64 == 0 } }
impl Own for W {
    fn fresh() -> Self { let id = register(); W { id, check: id ^ MAGIC, key: id as u8 } }
    fn id(&self) -> usize { used(self.id, self.ok()) }
}
impl Drop for W { fn drop(&mut self) { let ok = self.ok(); gone(self.id, ok) } }
/// Has no size.
#[derive(Debug)]
pub struct Z;
impl Own for Z {
    const SIZED: bool = false;
    fn fresh() -> Self { with(|l| l.made += 1); Z }
    fn id(&self) -> usize { 0 }
}
impl Drop for Z { fn drop(&mut self) { with(|l| { l.unmade += 1; if l.unmade > l.made { l.wrong.push("an element is dropped twice") } }) } }

macro_rules! own { ($($t:ident $key:expr;)*) => { $(
    impl Decode for $t {
        type Error = Fail;
        fn decode(input: &mut Input) -> Result<Self, Fail> {
            let Ok(key) = u8::decode(input);
            point()?;
            #[allow(unused_mut)]
            let mut x = $t::fresh();
            let f: fn(&mut $t, u8) = $key;
            f(&mut x, key);
            Ok(x)
        }
    }
    impl Clone for $t { fn clone(&self) -> Self { self.id(); if point().is_err() { panic!("injected") } $t::fresh() } }
)* } }
own!(D |d, k| d.key = k; W |d, k| d.key = k; Z |_, _| (););
macro_rules! keyed { ($($t:ident |$s:ident| $k:expr;)*) => { $(
    impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.id(); o.id(); let $s = self; let a = $k; let $s = o; a == $k } }
    impl Eq for $t {}
    impl std::hash::Hash for $t { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.id(); let $s = self; h.write_u8($k) } }
)* } }
keyed!(D |s| s.key; W |s| s.key; Z |_s| 0;);

// ---- The allocator ----

const SLOTS: usize = 4096;
#[derive(Clone, Copy)]
struct Block { p: usize, size: usize, align: usize, freed: bool }
pub struct Books;
struct Table { blocks: [Block; SLOTS], n: usize, wrong: [&'static str; 8], wrongs: usize, lost: usize }
thread_local! { static ON: Cell<bool> = const { Cell::new(false) } }
static mut TABLE: Table = Table { blocks: [Block { p: 0, size: 0, align: 0, freed: false }; SLOTS], n: 0, wrong: [""; 8], wrongs: 0, lost: 0 };
/// Only the one thread that explores uses it.
fn table() -> &'static mut Table { unsafe { &mut *(&raw mut TABLE) } }
impl Table {
    fn wrong(&mut self, w: &'static str) { if self.wrongs < 8 { self.wrong[self.wrongs] = w; self.wrongs += 1 } }
}
fn on() -> bool { ON.try_with(|o| o.get()).unwrap_or(false) }

unsafe impl GlobalAlloc for Books {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if on() {
            let t = table();
            if l.size() == 0 { t.wrong("an allocation of size zero") }
            if t.n < SLOTS { t.blocks[t.n] = Block { p: p as usize, size: l.size(), align: l.align(), freed: false }; t.n += 1 } else { t.lost += 1 }
            std::ptr::write_bytes(p, 0xa7, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if on() {
            let t = table();
            if let Some(b) = t.blocks[..t.n].iter_mut().rev().find(|b| b.p == p as usize) {
                if b.freed { t.wrong("memory is freed twice"); return }
                b.freed = true;
                let (size, align) = (b.size, b.align);
                if (size, align) != (l.size(), l.align()) { t.wrong("memory is freed with another layout than it was allocated with") }
                // Kept until the end, so that a second use is noticed.
                std::ptr::write_bytes(p, 0xdd, size);
                return
            }
            if p as usize % l.align() != 0 || (p as usize) < 4096 || l.size() == 0 { t.wrong("something that is no allocation is freed"); return }
        }
        System.dealloc(p, l)
    }
}
pub struct Memory { pub live: usize, pub wrong: Vec<&'static str>, pub lost: usize, pub allocs: usize }
/// Watches allocations while `f` runs; what it allocates and does not free
/// is live at the end, and then given back to the system.
pub fn watch(f: impl FnOnce()) -> Memory {
    let t = table();
    t.n = 0;
    t.wrongs = 0;
    t.lost = 0;
    ON.with(|o| o.set(true));
    f();
    ON.with(|o| o.set(false));
    let t = table();
    let mut live = 0;
    for b in &t.blocks[..t.n] {
        // What is live may still be referred to: leave it.
        if b.freed { unsafe { System.dealloc(b.p as *mut u8, Layout::from_size_align_unchecked(b.size, b.align)) } } else { live += 1 }
    }
    Memory { live, wrong: t.wrong[..t.wrongs].to_vec(), lost: t.lost, allocs: t.n }
}
