mod alloc;
mod c01;
mod c08;
mod c15;
mod c24;
mod common;
mod sheets;
mod ways;
mod world;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

use mck::driver::{Check, Tier};

fn build(prop: &str, tier: Tier) -> Option<Check> {
    match prop {
        "C01" => Some(c01::check(tier)),
        "C02" => Some(sheets::c02(tier)),
        "C03" => Some(sheets::c03(tier)),
        "C04" => Some(sheets::c04(tier)),
        "C05" => Some(sheets::c05(tier)),
        "C06" => Some(sheets::c06(tier)),
        "C08" => Some(c08::check(tier)),
        "C09" => Some(world::c09(tier)),
        "C10" => Some(world::c10(tier)),
        "C13" => Some(world::c13(tier)),
        "C14" => Some(world::c14(tier)),
        "C15" => Some(c15::check(tier)),
        "C16" => Some(world::c16(tier)),
        "C24" => Some(c24::check(tier)),
        _ => None,
    }
}

fn main() {
    mck::driver::main(build);
}
