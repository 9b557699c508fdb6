mod globals;
mod media;
mod names;
mod node;
mod tree;
mod world;

use mck::driver::{Check, Tier};

fn build(prop: &str, tier: Tier) -> Option<Check> {
    match prop {
        "C10" => Some(names::c10(tier)),
        "C11" => Some(world::c11(tier)),
        "C12" => Some(world::c12(tier)),
        "C16" => Some(world::c16(tier)),
        "C21" => Some(tree::c21(tier)),
        "C22" => Some(media::c22(tier)),
        "C23" => Some(globals::c23(tier)),
        "C24" => Some(world::c24(tier)),
        "C13" => Some(world::c13(tier)),
        _ => None,
    }
}

fn main() {
    mck::driver::main(build);
}
