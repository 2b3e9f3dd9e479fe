//! The simulated systems, one per property.
use crate::kernel::{Ctx, Res};

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
pub mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
pub mod damage;
pub mod util;

pub type Run = fn(&mut Ctx) -> Res;

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    pub run: Run,
    /// runs of the quick tier; the thorough tier does `factor` times as many
    pub quick: u64,
    pub factor: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    /// fixed probes for the findings listed in KNOWN_FINDINGS
    pub known: Option<&'static [(&'static str, Run)]>,
}

pub const PROPS: &[Prop] = &[c01::PROP, c02::PROP, c03::PROP, c04::PROP, c05::PROP, c06::PROP, c07::PROP, c08::PROP, c09::PROP, c10::PROP, c11::PROP, c12::PROP, c13::PROP, c14::PROP, c15::PROP, c16::PROP, c17::PROP, c18::PROP, c19::PROP, c20::PROP, c21::PROP];
