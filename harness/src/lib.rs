pub mod bfs;
pub mod chooser;
pub mod cx;
pub mod ledger;
pub mod model;
pub mod err;
pub mod subj;
pub mod gen;
pub mod reg;
#[cfg(all(feature = "oa", feature = "op", feature = "os"))]
pub mod odd;
pub mod codec;
pub mod judge;
