//! The scenarios in which V8 is a model.
#[allow(dead_code)]
mod fakev8;
mod props;
mod scen;
#[macro_use]
extern crate owsim;
use owsim::{Prop, Scenario, driver, h};

fn main() {
    let _ = &driver::mix;
    std::process::exit(owsim::entry(props::all(), std::env::args().collect()));
}
