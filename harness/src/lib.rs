//! Engine shared by the checks: choice tape, cases, runner, simulated world,
//! controlled thread scheduler.
#![allow(clippy::all)]

pub mod case;
pub mod runner;
pub mod sim;
pub mod par;
#[cfg(futures_verif)]
pub mod sched;
pub mod leaf;
pub mod thr;
pub mod iol;

pub use case::{Case, Tok};
pub use runner::{main_for, Prop, Sub};
