//! Scenarios: each drives the public API of the crates in /repo on symbolic inputs and states what
//! must hold.  The same code, uninstrumented, is the native replay.
#![allow(clippy::all)]
pub mod spec;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c13;
mod exprs;
mod c17;
mod c18;
mod c19;
mod c20;
mod c22;
#[cfg(feature = "opt")]
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod history;

use symrt::Scenario;

pub fn all() -> Vec<Scenario> {
    #[cfg(feature = "opt")]
    return c23::S.to_vec();
    #[cfg(not(feature = "opt"))]
    [c01::S, c02::S, c03::S, c04::S, c05::S, c06::S, c07::S, c13::S, c17::S, c18::S, c19::S, c20::S, c22::S, c24::S, c25::S, c26::S, c27::S, c28::S, c29::S, history::S].concat()
}
