//! Library-independent part of the checks: choice-sequence generation and shrinking,
//! the supervisor/worker runner, the reference term language and its evaluator.
pub mod ad;
pub mod gen;
pub mod run;
pub mod src;
pub mod term;
pub use run::{main_with, Cx, Out, Pinned, Spec, Stage};
pub use src::{Rng, Src};
pub use term::*;
