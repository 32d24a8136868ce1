//! Executions for Miri, which is the judge here: every leaf of each section's
//! choice tree is run in an interpreter that stops at the first undefined
//! behaviour (out-of-bounds or dangling accesses, uninitialised or invalid
//! values, data races, double frees, broken aliasing).
//!
//! Only safe functions are called, and unsafe ones within their contracts, so
//! whatever is reported is the library's doing.

#[path = "../../harness/src/chooser.rs"]
mod chooser;
mod codec;
mod containers;
mod elem;
mod see;

use chooser::Chooser;
pub use see::{see, show};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Scenario = fn(&mut Chooser) -> &'static str;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let deep = args.iter().any(|a| a == "--deep");
    let trace = args.iter().any(|a| a == "--trace");
    let mut all: Vec<(&'static str, Scenario)> = Vec::new();
    all.extend(containers::sections(deep));
    all.extend(codec::sections(deep));
    let Some(i) = args.iter().position(|a| a == "--section") else {
        for (name, _) in all {
            println!("{name}");
        }
        return;
    };
    if !trace {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let choices = args.iter().position(|a| a == "--choices").map(|i| args[i + 1].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect::<Vec<u32>>());
    for name in args[i + 1].split('|') {
        let (name, f) = *all.iter().find(|s| s.0 == name).expect("no such section");
        if trace {
            println!("SECTION {name}");
        }
        match &choices {
            Some(c) => {
                let mut ch = Chooser::replay(c);
                let r = catch_unwind(AssertUnwindSafe(|| f(&mut ch)));
                println!("replayed {name} {c:?}: {}", r.unwrap_or("panic"));
            }
            None => explore(name, f, trace),
        }
    }
}

fn explore(name: &str, f: Scenario, trace: bool) {
    let mut ch = Chooser::new();
    let mut outcomes: Vec<(&'static str, u64)> = Vec::new();
    let mut leaves = 0u64;
    let mut steps = 0u64;
    loop {
        ch.restart();
        if trace {
            println!("NEXT {}", ch.planned().iter().map(u32::to_string).collect::<Vec<_>>().join(","));
        }
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut ch))).unwrap_or("panic");
        leaves += 1;
        steps += ch.choices().len() as u64;
        match outcomes.iter_mut().find(|o| o.0 == r) {
            Some(o) => o.1 += 1,
            None => outcomes.push((r, 1)),
        }
        if !ch.advance() {
            break;
        }
    }
    let outcomes: Vec<String> = outcomes.iter().map(|(k, n)| format!("\"{k}\":{n}")).collect();
    println!("REPORT {{\"section\":\"{name}\",\"evaluations\":{leaves},\"transitions\":{steps},\"outcomes\":{{{}}}}}", outcomes.join(","));
}
