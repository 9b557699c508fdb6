//! The same histories in a build without random entropy (counter mode) and without the debug
//! parser.
#[path = "../../h-native/src/alloc.rs"]
mod alloc;
#[path = "../../h-native/src/common.rs"]
#[allow(dead_code)]
mod common;
#[path = "../../h-native/src/sheets.rs"]
#[allow(dead_code)]
mod sheets;
#[path = "../../h-native/src/world.rs"]
#[allow(dead_code)]
mod world;

mod served;

use mck::driver::{Check, Tier};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn build(prop: &str, tier: Tier) -> Option<Check> {
    match prop {
        "C10" => Some(world::c10(tier)),
        "C13" => Some(world::c13(tier)),
        "C16" => Some(served::c16(tier)),
        _ => None,
    }
}

fn main() {
    if served::serve() || served::client() {
        return;
    }
    mck::driver::main(build);
}
