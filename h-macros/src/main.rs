mod batch;
mod c17;
mod c18;
mod c19;
mod c20;
mod common;

use mck::driver::{Check, Tier};

fn build(prop: &str, tier: Tier) -> Option<Check> {
    match prop {
        "C17" => Some(c17::check(tier)),
        "C18" => Some(c18::check(tier)),
        "C19" => Some(c19::check(tier)),
        "C20" => Some(c20::check(tier)),
        _ => None,
    }
}

fn main() {
    mck::driver::main(build);
}
