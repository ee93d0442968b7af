#![allow(static_mut_refs)]
pub mod ctx;
pub mod iso;
pub mod json;
pub mod rng;
pub mod runner;
pub mod sched;
pub mod seams;
pub mod sys;
pub use ctx::{Ctx, Res, Violation};
