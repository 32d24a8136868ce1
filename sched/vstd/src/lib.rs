//! Stands in for `std` when the library under test is built for the
//! scheduler: everything is `std`'s own, except that the locks let the
//! scheduler decide who goes on before and after each acquisition.

pub use ::std::*;

pub mod sched;
pub mod sync;
