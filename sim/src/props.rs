//! The properties.

use crate::core::RunFn;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c16;
pub mod c18;
pub mod c19;

pub struct Prop {
    pub id: &'static str,
    pub run: RunFn,
    pub quick_runs: u64,
    /// every run in a process of its own
    pub apart: bool,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub probes: &'static [&'static str],
    pub assume: &'static [&'static str],
}

pub const ALL: &[&Prop] = &[&c01::PROP, &c02::PROP, &c03::PROP, &c04::PROP, &c05::PROP, &c06::PROP, &c07::PROP, &c08::PROP, &c09::PROP, &c10::PROP, &c11::PROP, &c12::PROP, &c13::PROP, &c14::PROP, &c16::PROP, &c18::PROP, &c19::PROP];

impl Prop {
    pub fn one(&self, input: crate::core::Input, verbose: bool) -> crate::core::Outcome {
        if self.apart {
            crate::sched::run_apart(self.run, input, verbose)
        } else {
            crate::core::run_one(self.run, input, verbose)
        }
    }
}
