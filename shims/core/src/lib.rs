//! Stand-ins for the crates the repository under test depends on and that are absent offline.
#![allow(clippy::too_many_arguments, clippy::missing_safety_doc)]
pub mod arith;
pub mod cheat;
pub mod circuit;
pub mod crosslayer;
pub mod engine;
pub mod gkr;
pub mod monitor;
pub mod mpi;
pub mod pcs;
pub mod shm;
pub mod timer {
    pub struct Timer;
    impl Timer {
        pub fn new(_n: &str, _p: bool) -> Self {
            Timer
        }
        pub fn stop(&self) {}
    }
}
