#![allow(non_snake_case, clippy::too_many_arguments, clippy::needless_range_loop)]
pub mod case;
pub mod dfit;
pub mod dict;
pub mod dmops;
pub mod fit;
pub mod oracle;
pub mod problem;
pub mod rng;
pub mod spy;
pub mod runner;
pub mod uniq;
pub mod unit;

pub mod prelude {
    pub use crate::case::*;
    pub use crate::fit::*;
    pub use crate::oracle::*;
    pub use crate::problem::*;
    pub use crate::rng::G;
    pub use crate::runner::{guarded, run, Info, Outcome, Property};
    pub use crate::uniq::*;
    pub use serde::{Deserialize, Serialize};
}
