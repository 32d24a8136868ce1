//! Element types: what they own shows when it is read twice, freed twice or
//! never initialised.

use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use std::cell::Cell;
use std::fmt::Debug;

/// Owns memory of the heap.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Heap(pub Box<u8>);

/// Owns nothing and has no size.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Zst;

/// Has padding and more than the usual alignment.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(align(16))]
pub struct Wide(pub u8, pub u32);

thread_local! {
    /// Clonings left until one panics.
    pub static CLONES: Cell<u32> = const { Cell::new(u32::MAX) };
}

fn cloned() {
    CLONES.with(|c| {
        let n = c.get();
        if n == 0 {
            c.set(u32::MAX);
            panic!("cloning");
        }
        c.set(n - 1);
    })
}

impl Clone for Heap {
    fn clone(&self) -> Self {
        cloned();
        Heap(self.0.clone())
    }
}

pub trait Elem: Sized + Clone + Debug + crate::see::See + Ord + std::hash::Hash {
    /// Whether giving an element away twice is harmless.
    const COPY: bool;
    fn make(n: u8) -> Self;
    fn alter(&mut self);
}
impl Elem for u8 {
    const COPY: bool = true;
    fn make(n: u8) -> Self { n }
    fn alter(&mut self) { *self ^= 0x55 }
}
impl Elem for Heap {
    const COPY: bool = false;
    fn make(n: u8) -> Self { Heap(Box::new(n)) }
    fn alter(&mut self) { *self.0 ^= 0x55 }
}
impl Elem for Zst {
    const COPY: bool = true;
    fn make(_: u8) -> Self { Zst }
    fn alter(&mut self) {}
}
impl Elem for Wide {
    const COPY: bool = true;
    fn make(n: u8) -> Self { Wide(n, n as u32) }
    fn alter(&mut self) { self.1 += 1 }
}

/// Refused.
#[derive(Debug)]
pub struct No;

impl std::fmt::Display for No {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("no") }
}
impl std::error::Error for No {}

/// Elements that are fine (0..=0xEF), refuse (0xF0) or panic (0xF1..).
impl Decode for Heap {
    type Error = No;
    fn decode(input: &mut Input) -> Result<Self, No> {
        let Ok(b) = u8::decode(input);
        match b {
            0xF0 => Err(No),
            0xF1.. => panic!("element"),
            b => Ok(Heap(Box::new(b))),
        }
    }
}
impl Encode for Heap {
    type Error = No;
    fn encode(&self, output: &mut Output) -> Result<(), No> {
        match *self.0 {
            0xF0 => Err(No),
            0xF1.. => panic!("element"),
            b => {
                let Ok(()) = b.encode(output);
                Ok(())
            }
        }
    }
}
impl SizedEncode for Heap {
    const MAX_ENCODED_SIZE: usize = 1;
}
