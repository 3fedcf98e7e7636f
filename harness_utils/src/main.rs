#![feature(min_specialization)]
#![allow(dead_code, unused_imports)]
pub mod utils {
    include!(concat!(env!("OUT_DIR"), "/utils.rs"));
}
mod checks;
fn main() {
    vpc::main(&checks::CHECKS)
}
