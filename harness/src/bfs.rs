//! Explicit-state exploration of a real object next to a model of it.
//!
//! [`merged`] searches breadth first over the model's states: every state is
//! expanded once, by rebuilding the real object along the shortest history
//! that leads there and trying every operation on both. [`tree`] runs all
//! histories up to a length without merging states, so that hidden state of
//! the implementation cannot be missed by merging.

use crate::cx::{fp_of, Bad, CaseResult, Cx};
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::Hash;

pub trait Sys {
    type Real;
    type Model: Clone + Eq + Hash + Debug;
    type Op: Clone + Debug;
    fn start(&self) -> (Self::Real, Self::Model);
    fn ops(&self, m: &Self::Model) -> Vec<Self::Op>;
    /// Applies the operation to both and compares what they return.
    fn step(&self, r: &mut Self::Real, m: &mut Self::Model, op: &Self::Op) -> Result<&'static str, Bad>;
    /// Compares everything that can be observed.
    fn observe(&self, r: &mut Self::Real, m: &Self::Model) -> Result<(), Bad>;
}

fn history<S: Sys>(sys: &S, path: &[S::Op]) -> Result<(S::Real, S::Model), Bad> {
    let (mut r, mut m) = sys.start();
    sys.observe(&mut r, &m)?;
    for op in path {
        sys.step(&mut r, &mut m, op)?;
    }
    Ok((r, m))
}

pub fn merged<S: Sys>(cx: &mut Cx, sys: &S, max_depth: usize, max_states: usize) {
    let (_, m0) = sys.start();
    let mut paths: Vec<Vec<S::Op>> = vec![vec![]];
    let mut models: Vec<S::Model> = vec![m0.clone()];
    let mut known: HashMap<S::Model, usize> = [(m0, 0)].into();
    let mut i = 0;
    let mut cut = false;
    while i < paths.len() {
        let path = paths[i].clone();
        if path.len() >= max_depth { cut = true; i += 1; continue }
        for (k, op) in sys.ops(&models[i]).into_iter().enumerate() {
            let mut next = None;
            cx.case(fp_of(&(i, k)), || format!("{path:?} then {op:?}"), |_| -> CaseResult {
                let (mut r, mut m) = history(sys, &path)?;
                // The same history must lead to the same state again.
                if m != models[i] { return Err(Bad::new("history is not reproducible", format!("{m:?} instead of {:?}", models[i]))) }
                let o = sys.step(&mut r, &mut m, &op)?;
                sys.observe(&mut r, &m)?;
                next = Some(m);
                Ok(o)
            });
            cx.transitions += 1;
            cx.traces += 1;
            if let Some(m) = next {
                if known.len() < max_states {
                    let n = known.len();
                    if let std::collections::hash_map::Entry::Vacant(v) = known.entry(m.clone()) {
                        v.insert(n);
                        let mut p = path.clone();
                        p.push(op);
                        paths.push(p);
                        models.push(m);
                    }
                } else { cut = true }
            }
        }
        i += 1;
    }
    cx.states += known.len() as u64;
    cx.notes.push(format!("{}: {}", cx.section.split(':').next().unwrap_or(""), if cut { "bounded by depth or number of states" } else { "all reachable states" }));
}

/// All histories of exactly `depth` operations (and so their prefixes).
pub fn tree<S: Sys>(cx: &mut Cx, sys: &S, depth: usize) {
    let (_, m0) = sys.start();
    grow(cx, sys, &mut Vec::new(), m0, depth);
}

fn grow<S: Sys>(cx: &mut Cx, sys: &S, path: &mut Vec<S::Op>, m0: S::Model, depth: usize) {
    for op in sys.ops(&m0) {
        let mut next = None;
        path.push(op);
        cx.case(fp_of(&format!("{path:?}")), || format!("{path:?}"), |_| {
            let (mut r, mut m) = history(sys, &path[..path.len() - 1])?;
            let o = sys.step(&mut r, &mut m, path.last().unwrap())?;
            sys.observe(&mut r, &m)?;
            next = Some(m);
            Ok(o)
        });
        cx.transitions += 1;
        cx.traces += 1;
        if let Some(m) = next { if depth > 1 { grow(cx, sys, path, m, depth - 1) } }
        path.pop();
    }
}
