mod explore;
mod scen;

use mck::driver::{Check, Tier};

fn build(prop: &str, tier: Tier) -> Option<Check> {
    match prop {
        "C07" => Some(scen::c07(tier)),
        "C10" => Some(scen::c10(tier)),
        "C14" => Some(scen::c14(tier)),
        _ => None,
    }
}

fn main() {
    mck::driver::main(build);
}
